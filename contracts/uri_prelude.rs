// ---- text
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn joined(xs: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases xs.len() {
  if xs.len() == 0 { Seq::<char>::empty() } else if xs.len() == 1 { xs[0] } else { joined(xs.drop_last(), sep) + sep + xs.last() }
}
// TRUSTED: to_string of a type with Display is what its fmt writes; the texts of numbers and addresses are theirs
pub trait VxShow { spec fn shown(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.shown(); }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
impl<'a, T: VxShow + ?Sized> VxShow for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
#[verifier::opaque]
pub open spec fn decimal(n: int) -> Seq<char> decreases n { if n < 10 { seq![(48 + n) as char] } else { decimal(n / 10) + seq![(48 + n % 10) as char] } }
impl VxShow for u16 { open spec fn shown(&self) -> Seq<char> { decimal(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
#[verifier::external_body]
pub struct Ipv4Addr { x: u32 }
impl Ipv4Addr { pub uninterp spec fn text(&self) -> Seq<char>; }
impl VxShow for Ipv4Addr { open spec fn shown(&self) -> Seq<char> { self.text() } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
#[verifier::external_body]
pub struct Ipv6Addr { x: u128 }
impl Ipv6Addr { pub uninterp spec fn text(&self) -> Seq<char>; }
impl VxShow for Ipv6Addr { open spec fn shown(&self) -> Seq<char> { self.text() } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
#[verifier::external_body]
pub fn vx_no_text() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn vx_static<T>(x: T) -> (r: &'static T) ensures *r == x { unimplemented!() }
pub trait VxBuild: Sized {
  spec fn sofar(&self) -> Seq<char>;
  fn vx_put<T: VxShow + ?Sized>(&mut self, x: &T) ensures final(self).sofar() == old(self).sofar() + x.shown();
}
impl VxBuild for String {
  open spec fn sofar(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn vx_put<T: VxShow + ?Sized>(&mut self, x: &T) { unimplemented!() }
}
#[verifier::external_body]
pub struct Formatter<'a> { x: &'a u8 }
#[verifier::external_body]
pub struct VxFmtError { x: u8 }
pub type VxFmtResult = core::result::Result<(), VxFmtError>;
impl<'a> Formatter<'a> {
  pub uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn vx_write(&mut self, s: String) -> (r: VxFmtResult) ensures r is Ok ==> final(self).view() == old(self).view() + s@ { unimplemented!() }
}
pub trait VxSliceLike<T> { spec fn slice(&self) -> Seq<T>; }
impl<'b, T> VxSliceLike<T> for &'b [T] { open spec fn slice(&self) -> Seq<T> { self@ } }
impl<'b, T> VxSliceLike<T> for &'b Vec<T> { open spec fn slice(&self) -> Seq<T> { self@ } }
#[verifier::external_body]
pub fn vx_vec_from<T, S: VxSliceLike<T>>(s: S) -> (r: Vec<T>) ensures r@ == s.slice() { unimplemented!() }
// TRUSTED: iterator adapters
pub open spec fn folded<B, T, F: Fn(B, T) -> B>(f: F, b: B, xs: Seq<T>, r: B) -> bool decreases xs.len() {
  if xs.len() == 0 { r == b } else { exists|m: B| #[trigger] f.ensures((b, xs[0]), m) && folded(f, m, xs.drop_first(), r) }
}
impl<T> VxIter<T> {
  #[verifier::external_body]
  pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: VxIter<B>)
    requires forall|i: int| 0 <= i < self.view().len() ==> f.requires((#[trigger] self.view()[i],))
    ensures r.view().len() == self.view().len(), forall|i: int| 0 <= i < r.view().len() ==> f.ensures((self.view()[i],), #[trigger] r.view()[i])
  { unimplemented!() }
  #[verifier::external_body]
  pub fn fold<B, F: Fn(B, T) -> B>(self, b: B, f: F) -> (r: B)
    requires forall|b: B, x: T| #[trigger] f.requires((b, x))
    ensures folded(f, b, self.view(), r)
  { unimplemented!() }
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::<T>::empty() } }
pub trait VxIterRef { type Elem; spec fn elems(&self) -> Seq<Self::Elem>; fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a Self::Elem>) ensures r.view() == refs::<Self::Elem>(self.elems()); }
impl<T> VxIterRef for Option<T> { type Elem = T; open spec fn elems(&self) -> Seq<T> { opt_seq(*self) } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> VxIter<&'a T> { unimplemented!() } }
impl<T> VxIterRef for Vec<T> { type Elem = T; open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> VxIter<&'a T> { unimplemented!() } }
impl<T> VxIterRef for [T] { type Elem = T; open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> VxIter<&'a T> { unimplemented!() } }
impl<'b, T> VxIntoIter for &'b [T] {
  type Item = &'b T;
  open spec fn items(self) -> Seq<&'b T> { refs(self@) }
  #[verifier::external_body]
  fn vx_into(self) -> VxIter<&'b T> { unimplemented!() }
}
impl<'b, T> VxIntoIter for &'b Vec<T> {
  type Item = &'b T;
  open spec fn items(self) -> Seq<&'b T> { refs(self@) }
  #[verifier::external_body]
  fn vx_into(self) -> VxIter<&'b T> { unimplemented!() }
}
pub trait VxJoin { spec fn pieces(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.pieces(), sep@); }
impl VxJoin for Vec<String> { open spec fn pieces(&self) -> Seq<Seq<char>> { texts(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> String { unimplemented!() } }
// TRUSTED: a hash map is a finite map from texts
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct HashMap<K, V> { k: Option<Box<K>>, v: Option<Box<V>> }
pub trait VxKey { spec fn key(&self) -> Seq<char>; }
impl VxKey for str { open spec fn key(&self) -> Seq<char> { self@ } }
impl VxKey for String { open spec fn key(&self) -> Seq<char> { self@ } }
impl<'a, T: VxKey + ?Sized> VxKey for &'a T { open spec fn key(&self) -> Seq<char> { (**self).key() } }
impl<K: VxKey, V> HashMap<K, V> {
  pub uninterp spec fn m(&self) -> Map<Seq<char>, V>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r.m() == Map::<Seq<char>, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut<Q: VxKey + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
    ensures match r {
      Some(v) => old(self).m().dom().contains(k.key()) && *v == old(self).m()[k.key()] && final(self).m() == old(self).m().insert(k.key(), *final(v)),
      None => !old(self).m().dom().contains(k.key()) && final(self).m() == old(self).m() }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn get<Q: VxKey + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
    ensures match r { Some(v) => self.m().dom().contains(k.key()) && *v == self.m()[k.key()], None => !self.m().dom().contains(k.key()) }
  { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
    ensures final(self).m() == old(self).m().insert(k.key(), v)
  { unimplemented!() }
}
// TRUSTED: derived Clone
impl Clone for Path { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---- what the models hold and show
pub open spec fn parts_of(p: Path) -> Seq<String> {
  match p {
    Path::RootlessPath { parts, .. } => parts@,
    Path::AbemptyPath { parts, .. } => parts@,
    Path::AbsolutePath { parts, .. } => parts@,
    Path::NoSchemePath { parts, .. } => parts@,
    Path::EmptyPath { .. } => Seq::<String>::empty(),
  }
}
pub open spec fn kind_of(p: Path) -> int {
  match p { Path::RootlessPath { .. } => 0, Path::AbemptyPath { .. } => 1, Path::AbsolutePath { .. } => 2, Path::NoSchemePath { .. } => 3, Path::EmptyPath { .. } => 4 }
}
pub open spec fn name_of(p: Path) -> Seq<char> {
  match p {
    Path::RootlessPath { type_name, .. } => type_name@,
    Path::AbemptyPath { type_name, .. } => type_name@,
    Path::AbsolutePath { type_name, .. } => type_name@,
    Path::NoSchemePath { type_name, .. } => type_name@,
    Path::EmptyPath { type_name } => type_name@,
  }
}
pub open spec fn kind_name(k: int) -> Seq<char> {
  if k == 0 { "rootless_path"@ } else if k == 1 { "abempty_path"@ } else if k == 2 { "absolute_path"@ } else if k == 3 { "no_scheme_path"@ } else { "empty_path"@ }
}
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn is_path(p: Path, k: int, parts: Seq<Seq<char>>) -> bool { kind_of(p) == k && name_of(p) == kind_name(k) && texts(parts_of(p)) =~= parts }
pub open spec fn same_opt(a: Option<String>, b: Option<&str>) -> bool { match a { Some(x) => b is Some && x@ == b->0@, None => b is None } }
/// one parameter as it is written
pub open spec fn pair_text(p: (String, Option<String>)) -> Seq<char> { match p.1 { Some(v) => p.0@ + ("="@ + v@), None => p.0@ } }
pub open spec fn query_text(ps: Seq<(String, Option<String>)>) -> Seq<char> { joined(Seq::new(ps.len(), |i: int| pair_text(ps[i])), "&"@) }
/// the values given to a key, in order
pub open spec fn values_of(ps: Seq<(String, Option<String>)>, k: Seq<char>) -> Seq<Seq<char>> decreases ps.len() {
  if ps.len() == 0 { Seq::<Seq<char>>::empty() }
  else {
    let rest = values_of(ps.drop_last(), k);
    match ps.last() { (key, Some(v)) if key@ == k => rest.push(v@), _ => rest }
  }
}
pub open spec fn has_key(ps: Seq<(String, Option<String>)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0@ == k }
pub open spec fn ref_texts(v: Seq<&String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// m is the grouping of ps by key
pub open spec fn grouped(ps: Seq<(String, Option<String>)>, m: Map<Seq<char>, Vec<&String>>) -> bool {
  forall|k: Seq<char>| (#[trigger] m.dom().contains(k) <==> has_key(ps, k)) && (m.dom().contains(k) ==> ref_texts(m[k]@) =~= values_of(ps, k))
}
impl VxShow for Query { open spec fn shown(&self) -> Seq<char> { query_text(self.params@) } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
impl VxShow for Path { open spec fn shown(&self) -> Seq<char> { joined(texts(parts_of(*self)), ""@) } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
impl VxShow for UserInfo { open spec fn shown(&self) -> Seq<char> { self.user_name@ + opt_text(":"@, match self.password { Some(p) => Some(p@), None => None }) } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
pub open spec fn opt_text(pre: Seq<char>, o: Option<Seq<char>>) -> Seq<char> { match o { Some(t) => pre + t, None => Seq::<char>::empty() } }
impl VxShow for IpLiteral {
  open spec fn shown(&self) -> Seq<char> { match *self { IpLiteral::Ipv6Address(a) => "["@ + a.shown() + "]"@, IpLiteral::IpvFuture(t) => "["@ + t@ + "]"@ } }
  #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() }
}
impl VxShow for HostName {
  open spec fn shown(&self) -> Seq<char> { match *self { HostName::RegName(t) => t@, HostName::Ipv4Address(a) => a.shown(), HostName::IpLiteral(l) => l.shown() } }
  #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() }
}
impl VxShow for Authority {
  open spec fn shown(&self) -> Seq<char> {
    (match self.user_info { Some(u) => u.shown() + "@"@, None => Seq::<char>::empty() }) + self.host_name.shown() + opt_text(":"@, match self.port { Some(p) => Some(p.shown()), None => None })
  }
  #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() }
}
impl VxShow for Scheme { open spec fn shown(&self) -> Seq<char> { self.0@ } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
impl VxShow for HierPart {
  open spec fn shown(&self) -> Seq<char> { opt_text("//"@, match self.authority { Some(a) => Some(a.shown()), None => None }) + self.path.shown() }
  #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() }
}
pub open spec fn uri_text(u: Uri) -> Seq<char> {
  (match u.schema { Some(s) => s.shown(), None => Seq::<char>::empty() }) + ":"@
    + (match u.hier_path { Some(h) => h.shown(), None => Seq::<char>::empty() })
    + opt_text("?"@, match u.query { Some(q) => Some(q.shown()), None => None })
    + opt_text("#"@, match u.fragment { Some(f) => Some(f@), None => None })
}
impl VxShow for Uri { open spec fn shown(&self) -> Seq<char> { uri_text(*self) } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
pub mod vx_uri_lemmas {
  use super::*;
  use vstd::prelude::*;
  pub broadcast proof fn lemma_fold<B, T, F: Fn(B, T) -> B>(f: F, b: B, xs: Seq<T>, r: B)
    requires #[trigger] folded(f, b, xs, r)
    ensures xs.len() == 0 ==> r == b, xs.len() == 1 ==> f.ensures((b, xs[0]), r)
  {
    if xs.len() == 1 {
      let m = choose|m: B| #[trigger] f.ensures((b, xs[0]), m) && folded(f, m, xs.drop_first(), r);
      assert(folded(f, m, xs.drop_first(), r));
    }
  }
  pub broadcast proof fn lemma_query(ps: Seq<(String, Option<String>)>, xs: Seq<String>)
    requires xs.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] xs[i])@ == pair_text(ps[i])
    ensures #![trigger query_text(ps), joined(texts(xs), "&"@)] joined(texts(xs), "&"@) == query_text(ps)
  { assert(texts(xs) =~= Seq::new(ps.len(), |i: int| pair_text(ps[i]))); }
  pub broadcast proof fn lemma_values(ps: Seq<(String, Option<String>)>, i: int, j: int, k: Seq<char>)
    requires 0 <= i < ps.len(), j == i + 1
    ensures
      #![trigger values_of(ps.take(i), k), values_of(ps.take(j), k)]
      values_of(ps.take(j), k) == (match ps[i] { (key, Some(v)) if key@ == k => values_of(ps.take(i), k).push(v@), _ => values_of(ps.take(i), k) }),
  { assert(ps.take(j).drop_last() =~= ps.take(i)); assert(ps.take(j).last() == ps[i]); }
  pub broadcast proof fn lemma_has(ps: Seq<(String, Option<String>)>, i: int, j: int, k: Seq<char>)
    requires 0 <= i < ps.len(), j == i + 1
    ensures
      #![trigger has_key(ps.take(i), k), has_key(ps.take(j), k)]
      has_key(ps.take(j), k) <==> (has_key(ps.take(i), k) || ps[i].0@ == k),
  {
    if has_key(ps.take(i), k) { let n = choose|n: int| 0 <= n < ps.take(i).len() && (#[trigger] ps.take(i)[n]).0@ == k; assert(ps.take(j)[n].0@ == k); }
    if ps[i].0@ == k { assert(ps.take(j)[i].0@ == k); }
    if has_key(ps.take(j), k) { let n = choose|n: int| 0 <= n < ps.take(j).len() && (#[trigger] ps.take(j)[n]).0@ == k; if n < i { assert(ps.take(i)[n].0@ == k); } }
  }
  pub broadcast proof fn lemma_no_values(ps: Seq<(String, Option<String>)>, k: Seq<char>)
    ensures !#[trigger] has_key(ps, k) ==> values_of(ps, k).len() == 0
    decreases ps.len()
  {
    if !has_key(ps, k) && ps.len() > 0 {
      assert(ps.last() == ps[ps.len() - 1]);
      assert forall|i: int| 0 <= i < ps.drop_last().len() implies (#[trigger] ps.drop_last()[i]).0@ != k by { assert(ps.drop_last()[i] == ps[i]); }
      lemma_no_values(ps.drop_last(), k);
    }
  }
}
