== ConfigNumberValue::new
props: C18
ens[new]: res.0 == $0
== ConfigNumberValue::as_decimal
props: C18
ens[get]: *res == self.0
== ConfigNumberValue::to_i128
props: C18
ens[exact]: fits_as(self.0.whole(), self.0.val(), i128::MIN as int, i128::MAX as int, some(res, |x: i128| x as int))
== ConfigNumberValue::to_u128
props: C18
ens[exact]: fits_as(self.0.whole(), self.0.val(), 0, u128::MAX as int, some(res, |x: u128| x as int))
== ConfigNumberValue::to_i64
props: C18
ens[exact]: fits_as(self.0.whole(), self.0.val(), i64::MIN as int, i64::MAX as int, some(res, |x: i64| x as int))
== ConfigNumberValue::to_u64
props: C18
ens[exact]: fits_as(self.0.whole(), self.0.val(), 0, u64::MAX as int, some(res, |x: u64| x as int))
== ConfigNumberValue::to_i32
props: C18
ens[exact]: fits_as(self.0.whole(), self.0.val(), i32::MIN as int, i32::MAX as int, some(res, |x: i32| x as int))
== ConfigNumberValue::to_u32
props: C18
ens[exact]: fits_as(self.0.whole(), self.0.val(), 0, u32::MAX as int, some(res, |x: u32| x as int))
== ConfigNumberValue::to_i16
props: C18
ens[exact]: fits_as(self.0.whole(), self.0.val(), i16::MIN as int, i16::MAX as int, some(res, |x: i16| x as int))
== ConfigNumberValue::to_u16
props: C18
ens[exact]: fits_as(self.0.whole(), self.0.val(), 0, u16::MAX as int, some(res, |x: u16| x as int))
== ConfigNumberValue::to_i8
props: C18
ens[exact]: fits_as(self.0.whole(), self.0.val(), i8::MIN as int, i8::MAX as int, some(res, |x: i8| x as int))
== ConfigNumberValue::to_u8
props: C18
ens[exact]: fits_as(self.0.whole(), self.0.val(), 0, u8::MAX as int, some(res, |x: u8| x as int))
== ConfigDurationValue::new
props: C18
ens[new]: res.value == $0 && res.unit == $1
== ConfigDurationValue::to_std_duration
props: C18
ens[exact]: self.value.0.whole() ==> match res {
    Ok(d) => d.ns() == total_ns(*self),
    Err(_) => self.value.0.val() < 0 || self.value.0.val() > u64::MAX || total_ns(*self) > u64::MAX * 1_000_000_000 }
clo[#0] ret: Result<VxStdDuration>
clo[#0] ens: match $r { Ok(d) => d.ns() == value * $c0 * 1_000_000_000, Err(_) => value * $c0 > u64::MAX }
== ConfigDurationValue::to_duration
props: C18
ens[exact]: self.value.0.whole() ==> match res {
    Ok(d) => d.ns() == total_ns(*self),
    Err(_) => self.value.0.val() < i64::MIN || self.value.0.val() > i64::MAX || !chrono_fits(total_ns(*self)) }
== ConfigValue::is_null
props: C20
ens[kind]: res == (*self is Null)
== ConfigValue::as_bool
props: C20
ens[kind]: match *self { ConfigValue::Bool(b) => res == Some(b), _ => res is None }
== ConfigValue::as_config_number_value
props: C20
ens[kind]: match *self { ConfigValue::Number(b) => res is Some && *(res->0) == b, _ => res is None }
== ConfigValue::as_config_duration_value
props: C20
ens[kind]: match *self { ConfigValue::Duration(b) => res is Some && *(res->0) == b, _ => res is None }
== ConfigValue::as_config_array_value
props: C20
ens[kind]: match *self { ConfigValue::Array(b) => res is Some && *(res->0) == b, _ => res is None }
== ConfigValue::as_config_object_value
props: C20
ens[kind]: match *self { ConfigValue::Object(b) => res is Some && *(res->0) == b, _ => res is None }
== ConfigValue::contains
props: C19
ens[contains]: res == (*self is Object && self->Object_0.0.m().dom().contains($0@))
== ConfigValue::of_reference
props: C22
ens[new]: res == (ConfigValue::Reference { prev: $0, path: $1, missing: $2 })
== ConfigValue::latest
props: C19
ens[latest]: *res == now(*self)
ens[history]: *res == hist(*self).last()
== ConfigValue::prev_latest
props: C19
ens[before]: match *self { ConfigValue::Link(l) => *res == now(*l.prev), x => *res == x }
== ConfigValue::to_vec
props: C19 C22
ens[history]: res@ == hist(*self)
loop[0] inv[rest]: hist(*self) == hist(*%other0.prev) + %vec0@.reverse()
loop[0] post: assert(hist(*%other0.prev) =~= seq![*%other0.prev]); assert(hist(*self) =~= %vec0@.push(*%other0.prev).reverse());
== ConfigValue::push
props: C19 C22
ens[pushed]: pushed(*old(self), $0, *final(self))
ens[history]: hist(*final(self)).len() == hist(*old(self)).len() + 1 && hist(*final(self)).drop_last() == hist(*old(self))
== ConfigValue::ref_prev
props: C22
ens[kind]: match *self { ConfigValue::Reference { prev, path, missing } => *res == prev, _ => *res is None }
== ConfigValue::ref_name
props: C22
ens[kind]: match *self { ConfigValue::Reference { prev, path, missing } => res is Some && *(res->0) == path, _ => res is None }
== ConfigValue::ref_missing
props: C22
ens[kind]: match *self { ConfigValue::Reference { prev, path, missing } => res == Some(missing), _ => res is None }
== ConfigValue::get_object_value
props: C19
ens[kind]: match *self { ConfigValue::Object(b) => res is Some && *(res->0) == b, _ => res is None }
== ConfigValue::get_array_value
props: C19
ens[kind]: match *self { ConfigValue::Array(b) => res is Some && *(res->0) == b, _ => res is None }
== ConfigValue::get_value_link
props: C19
ens[kind]: match *self { ConfigValue::Link(b) => res is Some && *(res->0) == *b, _ => res is None }
== ConfigValueLink::new
props: C19
ens[new]: res.prev == $0 && res.value == $1
== ConfigArrayValue::new
props: C19
ens[new]: res.0 == $0
== ConfigArrayValue::as_array
props: C20
ens[get]: *res == self.0
== ConfigObjectValue::new
props: C19
ens[new]: res.0 == $0
== ConfigObjectValue::has_path
props: C19
ens[has]: res == self.0.m().dom().contains($0@)
== ConfigObjectValue::as_map
props: C20
ens[get]: *res == self.0
== ConfigMergeable for ConfigArrayValue::merge_with
props: C19
ens[appended]: final(self).0@ == old(self).0@ + $0.0@
== ConfigMergeable for ConfigObjectValue::merge_with
props: C19
ens[key-by-key]: forall|n: nat| #[trigger] obj_merged(n, old(self).0.m(), $0.0.m(), final(self).0.m())
loop[0] inv[walk]: vx_it0@.len() <= $0.0.order().len() && vx_it0@ == $0.0.order().skip($0.0.order().len() - vx_it0@.len())
loop[0] inv[frame]: forall|k: Seq<char>| !seen($0.0, $0.0.order().len() - vx_it0@.len(), k) ==> (#[trigger] self.0.m().dom().contains(k) <==> old(self).0.m().dom().contains(k)) && self.0.m()[k] == old(self).0.m()[k]
loop[0] inv[done]: forall|i: int| #![trigger $0.0.order()[i]] 0 <= i < $0.0.order().len() - vx_it0@.len() ==> put(old(self).0.m(), $0.0.m(), self.0.m(), $0.0.order()[i].0@)
loop[0] post: assert(forall|k: Seq<char>| #[trigger] $0.0.m().dom().contains(k) ==> put(old(self).0.m(), $0.0.m(), self.0.m(), k));
  assert(self.0.m().dom() =~= old(self).0.m().dom().union($0.0.m().dom()));
  assert forall|n: nat| #[trigger] obj_merged(n, old(self).0.m(), $0.0.m(), self.0.m()) by { if n > 0 {
    assert forall|k: Seq<char>| #[trigger] self.0.m().dom().contains(k) implies (if !$0.0.m().dom().contains(k) { self.0.m()[k] == old(self).0.m()[k] } else if !old(self).0.m().dom().contains(k) { self.0.m()[k] == $0.0.m()[k] } else { merged((n - 1) as nat, old(self).0.m()[k], $0.0.m()[k], self.0.m()[k]) }) by { if $0.0.m().dom().contains(k) { assert(put(old(self).0.m(), $0.0.m(), self.0.m(), k)); } else { assert(!seen($0.0, $0.0.order().len() as int, k)); } }
  } }
== ConfigMergeable for ConfigValue::merge_with
props: C19
ens[merged]: is_merged(*old(self), $0, *final(self))
loop[0] inv[walk]: vx_it0@.len() <= hist(r).len() && vx_it0@ == hist(r).skip(hist(r).len() - vx_it0@.len())
loop[0] inv[so-far]: is_merged_all(*old(self), hist(r).take(hist(r).len() - vx_it0@.len()), *l)
loop[0] post: assert(hist(r).take(hist(r).len() as int) =~= hist(r));
== ConfigValue::as_string
props: C20
ens[kind]: match *self { ConfigValue::String(b) => res is Some && res->0@ == b@, _ => res is None }
== ConfigValue::as_number
props: C18 C20
clo[map#0] ret: &Decimal
clo[map#0] ens: *$r == $c0.0
ens[kind]: match *self { ConfigValue::Number(b) => res is Some && *(res->0) == b.0, _ => res is None }
== ConfigValue::as_array
props: C20
clo[map#0] ret: &[ConfigValue]
clo[map#0] ens: $r@ == $c0.0@
ens[kind]: match *self { ConfigValue::Array(b) => res is Some && res->0@ == b.0@, _ => res is None }
== ConfigValue::as_object
props: C20
clo[map#0] ret: &HashMap<String, ConfigValue>
clo[map#0] ens: *$r == $c0.0
ens[kind]: match *self { ConfigValue::Object(b) => res is Some && *(res->0) == b.0, _ => res is None }
== ConfigValue::as_duration
props: C18
req[fits]: match *self { ConfigValue::Duration(d) => chrono_ok(d), _ => true }
clo[map#0] ret: VxChronoDuration
clo[map#0] req: chrono_ok(*$c0)
clo[map#0] ens: $r.ns() == total_ns(*$c0)
ens[exact]: match *self { ConfigValue::Duration(d) => res is Some && res->0.ns() == total_ns(d), _ => res is None }
== ConfigValue::as_std_duration
props: C18
req[fits]: match *self { ConfigValue::Duration(d) => std_ok(d), _ => true }
clo[map#0] ret: VxStdDuration
clo[map#0] req: std_ok(*$c0)
clo[map#0] ens: $r.ns() == total_ns(*$c0)
ens[exact]: match *self { ConfigValue::Duration(d) => res is Some && res->0.ns() == total_ns(d), _ => res is None }
== ConfigValue::has_path
props: C19
pre: proof { reveal_strlit("."); } assert($0@.take(find($0@, '.')) =~= $0@.subrange(0, find($0@, '.'))); assert(blen($0@.take(find($0@, '.') + 1)) <= blen($0@) || find($0@, '.') == $0@.len());
req[path]: legal($0@)
ens[lookup]: res == (lookup(*self, $0@) is Some)
== ConfigValue::get_value
props: C19
pre: proof { reveal_strlit("."); } assert($0@.take(find($0@, '.')) =~= $0@.subrange(0, find($0@, '.'))); assert(blen($0@.take(find($0@, '.') + 1)) <= blen($0@) || find($0@, '.') == $0@.len());
req[path]: legal($0@)
ens[lookup]: match res { Some(v) => lookup(*self, $0@) == Some(*v), None => lookup(*self, $0@) is None }
== ConfigValue::get_include_value
props: C20
ens[kind]: match *self { ConfigValue::Include(b) => res is Some && *(res->0) == b, _ => res is None }
== ConfigIncludeValue::new
props: C20
ens[new]: res.method == $0 && res.file_name == $1
== Monoid for ConfigValue::combine
props: C19
ens[pushed]: if *$0 is Link { pushed_all(*old(self), hist(*$0), *final(self)) } else { *final(self) == *old(self) }
loop[0] inv[walk]: vx_it0@.len() <= hist(*$0).len() && vx_it0@ == hist(*$0).skip(hist(*$0).len() - vx_it0@.len())
loop[0] inv[so-far]: pushed_all(*old(self), hist(*$0).take(hist(*$0).len() - vx_it0@.len()), *self)
loop[0] post: assert(hist(*$0).take(hist(*$0).len() as int) =~= hist(*$0));
== Monoid for ConfigArrayValue::combine
props: C19
ens[appended]: final(self).0@ == old(self).0@ + $0.0@
== Monoid for ConfigObjectValue::combine
props: C19
ens[key-by-key]: final(self).0.m().dom() =~= old(self).0.m().dom().union($0.0.m().dom())
ens[values]: forall|k: Seq<char>| #[trigger] final(self).0.m().dom().contains(k) ==> if !$0.0.m().dom().contains(k) { final(self).0.m()[k] == old(self).0.m()[k] } else { comb(old(self).0.m(), $0.0.m(), final(self).0.m(), k) }
loop[0] inv[walk]: vx_it0@.len() <= $0.0.order().len() && vx_it0@ == refs($0.0.order()).skip($0.0.order().len() - vx_it0@.len())
loop[0] inv[frame]: forall|k: Seq<char>| !seen($0.0, $0.0.order().len() - vx_it0@.len(), k) ==> (#[trigger] self.0.m().dom().contains(k) <==> old(self).0.m().dom().contains(k)) && self.0.m()[k] == old(self).0.m()[k]
loop[0] inv[done]: forall|i: int| #![trigger $0.0.order()[i]] 0 <= i < $0.0.order().len() - vx_it0@.len() ==> comb(old(self).0.m(), $0.0.m(), self.0.m(), $0.0.order()[i].0@)
loop[0] post: assert(forall|k: Seq<char>| #[trigger] $0.0.m().dom().contains(k) ==> comb(old(self).0.m(), $0.0.m(), self.0.m(), k));
  assert(forall|k: Seq<char>| !$0.0.m().dom().contains(k) ==> !seen($0.0, $0.0.order().len() as int, k));
== Config::new
props: C20
ens[new]: res.config_value == $0
== Config::to_config_value
props: C20
ens[get]: *res == self.config_value
== Config::has_path
props: C19
req[path]: legal($0@)
ens[lookup]: res == (lookup(self.config_value, $0@) is Some)
== Config::get_value
props: C19
req[path]: legal($0@)
ens[lookup]: match res { Some(v) => lookup(self.config_value, $0@) == Some(*v), None => lookup(self.config_value, $0@) is None }
== ConfigResolver for ConfigValue::resolve
props: C20 C22
attr: #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(30)] #[verifier::spinoff_prover]
without: axiom_blen lemma_factor lemma_merge_step lemma_merge_case lemma_push_step
split: yes
pre: broadcast use {vx_resolve_lemmas::lemma_resolved, vx_resolve_lemmas::lemma_link_start, vx_resolve_lemmas::lemma_link_step, vx_resolve_lemmas::lemma_pending, vx_resolve_lemmas::lemma_coming, vx_resolve_lemmas::lemma_parts, vx_resolve_lemmas::lemma_nest, vx_resolve_lemmas::lemma_expand_skip, vx_resolve_lemmas::lemma_expand_joined, vx_resolve_lemmas::lemma_texts, vx_resolve_lemmas::lemma_leaf, vx_resolve_lemmas::lemma_refs, vx_include_lemmas::axiom_included};
  proof { reveal_strlit("."); assert("."@ =~= seq!['.']); }
ens[resolved]: is_resolved(*old(self), doc($0), *final(self))
loop[0] inv[walk]: 0 < cvs@.len() && vx_it0@.len() < cvs@.len() && vx_it0@ == points(cvs@.skip(1)).skip(cvs@.len() - 1 - vx_it0@.len())
loop[0] inv[so-far]: linked(cvs@.take(cvs@.len() - vx_it0@.len()), doc($0), head)
loop[0] post: assert(cvs@.take(cvs@.len() as int) =~= cvs@);
loop[1] inv[walk]: vx_it1@.len() <= av.0@.len() && vx_it1@ == av.0@.skip(av.0@.len() - vx_it1@.len())
loop[1] inv[so-far]: m@.len() == av.0@.len() - vx_it1@.len() && forall|i: int| 0 <= i < m@.len() ==> is_resolved(#[trigger] av.0@[i], doc($0), m@[i])
clo[filter#0] ty0: &(&String, &ConfigValue)
clo[filter#0] ret: bool
clo[filter#0] ens: $r == !dotted($c0.0@)
loop[2] inv[walk]: forall|i: int| 0 <= i < vx_it2@.len() ==> nondotted(cov.0.m(), (#[trigger] vx_it2@[i]).0@) && *vx_it2@[i].1 == cov.0.m()[vx_it2@[i].0@]
loop[2] inv[so-far]: forall|k: Seq<char>| #[trigger] new_key_values.m().dom().contains(k) ==> nondotted(cov.0.m(), k) && is_resolved(cov.0.m()[k], None, new_key_values.m()[k])
loop[2] inv[all]: forall|k: Seq<char>| nondotted(cov.0.m(), k) ==> #[trigger] new_key_values.m().dom().contains(k) || pending(vx_it2@, k)
loop[2] post: proof { vx_resolve_lemmas::lemma_expand_start(cov.0.m(), new_key_values.m()); assert(cov.0.order().take(0) =~= Seq::empty()); }
loop[3] inv[walk]: vx_it3@.len() <= cov.0.order().len() && vx_it3@ == refs(cov.0.order()).skip(cov.0.order().len() - vx_it3@.len())
loop[3] inv[so-far]: is_expanded(cov.0.order().take(cov.0.order().len() - vx_it3@.len()), cov.0.m(), new_key_values.m())
loop[3] post: assert(cov.0.order().take(cov.0.order().len() as int) =~= cov.0.order());
  proof { if new_key_values.m().dom() =~= vstd::set::Set::<Seq<char>>::empty() { assert(expanded(0, cov.0.order(), cov.0.m(), new_key_values.m())); vx_resolve_lemmas::lemma_expand_empty(cov.0, new_key_values.m()); assert(cov.0.m().dom() =~= new_key_values.m().dom()); assert(cov.0.m() =~= new_key_values.m()); } }
loop[4] inv[walk]: keys@.len() >= 2 && vx_it4@.len() <= keys@.len() - 2 && vx_it4@ == points(keys@.subrange(1, keys@.len() - 1)).skip(keys@.len() - 2 - vx_it4@.len())
loop[4] inv[so-far]: nested(parts(key@).skip(1 + vx_it4@.len() as int), mcv, new_object)
loop[5] inv[walk]: vx_it5@.len() <= ov.0.order().len() && vx_it5@ == ov.0.order().skip(ov.0.order().len() - vx_it5@.len())
loop[5] inv[so-far]: forall|k: Seq<char>| #[trigger] key_values.m().dom().contains(k) ==> ov.0.m().dom().contains(k) && is_resolved(ov.0.m()[k], doc($0), key_values.m()[k])
loop[5] inv[all]: forall|k: Seq<char>| #[trigger] ov.0.m().dom().contains(k) ==> key_values.m().dom().contains(k) || coming(vx_it5@, k)
loop[6] inv[frame]: *prev == old(self)->Enumeration_prev
loop[6] inv[walk]: vx_it6 <= values.0@.len() && values.0@.len() == old(self)->values.0@.len()
loop[6] inv[done]: forall|i: int| 0 <= i < vx_it6 ==> is_resolved(#[trigger] old(self)->values.0@[i], doc($0), values.0@[i])
loop[6] inv[left]: forall|i: int| vx_it6 <= i < values.0@.len() ==> values.0@[i] == old(self)->values.0@[i]
loop[6] inv[text]: result@ == texts(values.0@.take(vx_it6 as int))
loop[6] post: assert(values.0@.take(values.0@.len() as int) =~= values.0@); assert(is_each(old(self)->values.0@, doc($0), values.0@));
clo[vx_or_else#0] ret: Option<ConfigValue>
clo[vx_or_else#0] ens: match $r { Some(x) => x is String && env(cvr->path@) == Some(x->String_0@), None => env(cvr->path@) is None }
clo[map#0] ret: ConfigValue
clo[map#0] ens: $r == ConfigValue::String($c0)
clo[vx_map_or#0] ret: ConfigValue
clo[vx_map_or#0] ens: $r == now(**$c0)
after[ref_value]: assert(legal(cvr->path@) && ref_value is Some ==> value_of(*src, cvr->path@, ref_value->0));
== ConfigFactory::resolve_stage1
props: C22
ens[resolved]: is_resolved(*$0, Some(*$0), res)
== ConfigFactory::resolve_stage0
props: C19 C20 C22
ens[merged]: staged($0@, res)
after[empty]: assert(empty_doc(empty));
loop[0] inv[walk]: if $0@.len() == 0 { vx_it0@.len() == 0 } else { vx_it0@.len() < $0@.len() && vx_it0@ == points($0@).skip($0@.len() - vx_it0@.len()) }
pre: broadcast use vx_stage_lemmas::lemma_step;
loop[0] inv[none]: $0@.len() == 0 ==> staged($0@, cur)
loop[0] inv[so-far]: $0@.len() > 0 ==> staged($0@.take($0@.len() - vx_it0@.len()), cur)
loop[0] post: assert($0@.take($0@.len() as int) =~= $0@);
== ConfigFactory::parse_from_string
props: C19 C20 C22
clo[map#0] ret: ConfigValue
clo[map#0] ens: staged($c0@, $r)
clo[map#1] ret: ConfigValue
clo[map#1] ens: is_resolved($c0, Some($c0), $r)
clo[map#2] ret: Config
clo[map#2] ens: $r.config_value == $c0
clo[map_err#0] ret: ConfigError
clo[map_err#0] ens: $r is ParseError
ens[read]: match res { Ok(c) => readable($0@) && document($0@, c.config_value), Err(e) => !readable($0@) && e is ParseError }
== FileReader for DefaultFileReader::read_to_string
props: C20
clo[map_err#0] ty0: VxError
clo[map_err#0] ret: ConfigError
clo[map_err#0] ens: $r is FileNotFoundError
clo[map_err#1] ty0: VxError
clo[map_err#1] ret: ConfigError
clo[map_err#1] ens: $r is FileReadError
ens[read]: match res { Ok(_) => there($0@) && exists|t: Seq<char>| #[trigger] holds($0@, t) && old($1)@ + t == final($1)@, Err(e) => if opens($0@) { !reads_as_text($0@) && e is FileReadError } else { e is FileNotFoundError } }
== ConfigFactory::load_from_file
props: C20
attr: #[verifier::exec_allows_no_decreases_clause]
pre: proof { reveal(loaded); }
ens[loaded]: match res { Ok(c) => there($0@) && loaded($0@, c.config_value), Err(_) => !there($0@) || exists|t: Seq<char>| #[trigger] holds($0@, t) && !readable(t) }
== ConfigFactory::new
props: C20
ens[new]: true
