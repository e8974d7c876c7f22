# ---- paths
== Path::of_rootless_from_strs
props: C17
ens[is]: is_path(res, 0, strs($0@))
clo[map#0] ret: String
clo[map#0] ens: $r@ == $c0@
== Path::of_abempty_from_strs
props: C17
ens[is]: is_path(res, 1, strs($0@))
clo[map#0] ret: String
clo[map#0] ens: $r@ == $c0@
== Path::of_absolute_from_strs
props: C17
ens[is]: is_path(res, 2, strs($0@))
clo[map#0] ret: String
clo[map#0] ens: $r@ == $c0@
== Path::of_no_scheme_from_strs
props: C17
ens[is]: is_path(res, 3, strs($0@))
clo[map#0] ret: String
clo[map#0] ens: $r@ == $c0@
== Path::of_rootless_from_strings
props: C16 C17
ens[is]: is_path(res, 0, texts($0@))
== Path::of_abempty_from_strings
props: C16 C17
ens[is]: is_path(res, 1, texts($0@))
== Path::of_absolute_from_strings
props: C16 C17
ens[is]: is_path(res, 2, texts($0@))
== Path::of_no_scheme_from_strings
props: C16 C17
ens[is]: is_path(res, 3, texts($0@))
== Path::of_empty
props: C17
ens[is]: is_path(res, 4, Seq::<Seq<char>>::empty())
== Default for Path::default
props: C17
ens[is]: is_path(res, 4, Seq::<Seq<char>>::empty())
== Path::type_name
props: C17
ens[is]: res@ == name_of(*self)
== Path::parts
props: C16 C17
ens[is]: res@ == parts_of(*self)
== Path::is_empty
props: C17
ens[is]: res == (parts_of(*self).len() == 0)
== Path::non_empty
props: C17
ens[is]: res == (parts_of(*self).len() != 0)
== Path::with_parts
props: C17
ens[appended]: kind_of(*final(self)) == kind_of(*old(self)) && name_of(*final(self)) == name_of(*old(self)) && if *old(self) is EmptyPath { *final(self) == *old(self) } else { parts_of(*final(self)) =~= parts_of(*old(self)) + $0@ }
== Path::add_parts
props: C17
ens[appended]: kind_of(*final(self)) == kind_of(*old(self)) && name_of(*final(self)) == name_of(*old(self)) && if *old(self) is EmptyPath { *final(self) == *old(self) } else { parts_of(*final(self)) =~= parts_of(*old(self)) + $0@ }
loop[0] inv[walk]: vx_it0@.len() <= $0@.len() && vx_it0@ == $0@.skip($0@.len() - vx_it0@.len())
loop[0] inv[so-far]: kind_of(*self) == kind_of(*old(self)) && name_of(*self) == name_of(*old(self)) && if *old(self) is EmptyPath { *self == *old(self) } else { parts_of(*self) =~= parts_of(*old(self)) + $0@.take($0@.len() - vx_it0@.len()) }
== Path::add_part
props: C17
ens[appended]: kind_of(*final(self)) == kind_of(*old(self)) && name_of(*final(self)) == name_of(*old(self)) && if *old(self) is EmptyPath { *final(self) == *old(self) } else { parts_of(*final(self)) =~= parts_of(*old(self)).push($0) }
== Path::to_rootless
props: C17
ens[is]: is_path(res, 0, texts(parts_of(*self)))
== Path::to_absolute
props: C17
ens[is]: is_path(res, 2, texts(parts_of(*self)))
== Display for Path::fmt
pre: proof { reveal_strlit(""); }
props: C16 C17
ens[shown]: res is Ok ==> final($0)@ =~= old($0)@ + self.shown()
# ---- queries
== Default for Query::default
props: C17
ens[is]: res.params@.len() == 0
== Query::new
props: C16 C17
ens[is]: res.params == $0
== From for Query::from
props: C17
ens[is]: res.params@ =~= $0@
== From for Query::from@1
props: C17
ens[is]: res.params@.len() == $0@.len() && forall|i: int| 0 <= i < $0@.len() ==> (#[trigger] res.params@[i]).0@ == $0@[i].0@ && same_opt(res.params@[i].1, $0@[i].1)
clo[map#0] ret: (String, Option<String>)
clo[map#0] ens: $r.0@ == $c0.0@ && same_opt($r.1, $c0.1)
clo[map#1] ret: String
clo[map#1] ens: $r@ == $c0@
== Query::params
props: C17
ens[grouped]: grouped(self.params@, res.m())
loop[0] inv[walk]: vx_it0@.len() <= self.params@.len() && vx_it0@ == refs(self.params@).skip(self.params@.len() - vx_it0@.len())
loop[0] post: assert(self.params@.take(self.params@.len() as int) =~= self.params@);
loop[0] inv[so-far]: grouped(self.params@.take(self.params@.len() - vx_it0@.len()), result.m())
== Query::add
props: C17
ens[added]: final(self).params@ =~= old(self).params@.push(($0, Some($1)))
== Query::add_opt
props: C17
ens[added]: final(self).params@ =~= match $1 { Some(v) => old(self).params@.push(($0, Some(v))), None => old(self).params@ }
== Query::get_param
props: C17
ens[values]: match res { Some(v) => has_key(self.params@, $0@) && ref_texts(v@) =~= values_of(self.params@, $0@), None => !has_key(self.params@, $0@) }
clo[map#0] ret: Vec<&String>
clo[map#0] ens: $r@ == $c0@
== Query::as_string
props: C16 C17
clo[map#0] ret: String
pre: proof { reveal_strlit(""); }
clo[map#0] ens: $r@ =~= pair_text(*$c0)
clo[map#1] ret: String
clo[map#1] ens: $r@ =~= "="@ + $c0@
ens[text]: res@ =~= query_text(self.params@)
== Display for Query::fmt
props: C16 C17
ens[shown]: res is Ok ==> final($0)@ =~= old($0)@ + self.shown()
# ---- user info
== Default for UserInfo::default
props: C17
ens[is]: res.user_name@.len() == 0 && res.password is None
== UserInfo::new
props: C15 C17
ens[is]: res.user_name == $0 && res.password == $1
== From for UserInfo::from
props: C17
ens[is]: res.user_name@ == $0.0@ && same_opt(res.password, $0.1)
clo[map#0] ret: String
clo[map#0] ens: $r@ == $c0@
== From for Scheme::from , From for Scheme::from@1
props: C16
ens[is]: res.0@ == $0@
== Default for Scheme::default
props: C17
ens[is]: res.0@.len() == 0
== UserInfo::user_name
props: C15 C17
ens[is]: res@ == self.user_name@
== UserInfo::password
props: C15 C17
clo[map#0] ret: &str
clo[map#0] ens: $r@ == $c0@
ens[is]: match res { Some(t) => self.password is Some && t@ == self.password->0@, None => self.password is None }
== Display for UserInfo::fmt
pre: proof { reveal_strlit(""); }
props: C16 C17
ens[shown]: res is Ok ==> final($0)@ =~= old($0)@ + self.shown()
clo[map#0] ret: String
clo[map#0] ens: $r@ =~= ":"@ + $c0@
clo[fold#0] ret: String
clo[fold#0] ens: $r@ =~= $c0@ + $c1@
# ---- authority, host
== Display for IpLiteral::fmt , Display for HostName::fmt , Display for Scheme::fmt
props: C16
ens[shown]: res is Ok ==> final($0)@ =~= old($0)@ + self.shown()
== Default for HostName::default
props: C15 C17
ens[is]: res is RegName && res->RegName_0@.len() == 0
== Scheme::new
props: C16
ens[is]: res.0 == $0
== Default for Authority::default
props: C17
ens[is]: res.host_name is RegName && res.host_name->RegName_0@.len() == 0 && res.port is None && res.user_info is None
== Authority::new
props: C15 C17
ens[is]: res.host_name == $0 && res.port == $1 && res.user_info == $2
== Authority::host_name
props: C15 C17
ens[is]: *res == self.host_name
== Authority::port
props: C15 C17
ens[is]: res == self.port
== Authority::user_info
props: C15 C17
ens[is]: match res { Some(u) => self.user_info == Some(*u), None => self.user_info is None }
== Display for Authority::fmt
pre: proof { reveal_strlit(""); }
props: C16 C17
ens[shown]: res is Ok ==> final($0)@ =~= old($0)@ + self.shown()
clo[map#0] ret: String
clo[map#0] ens: $r@ =~= $c0.shown() + "@"@
clo[fold#0] ret: String
clo[fold#0] ens: $r@ =~= $c0@ + $c1@
clo[map#1] ret: String
clo[map#1] ens: $r@ =~= ":"@ + $c0.shown()
# ---- hier part and the whole
== HierPart::new
props: C16 C17
ens[is]: res.authority == $0 && res.path == $1
== HierPart::of_path
props: C16 C17
ens[is]: res.authority is None && res.path == $0
== Default for HierPart::default
props: C17
ens[is]: res.authority is None && is_path(res.path, 4, Seq::<Seq<char>>::empty())
== Display for HierPart::fmt
pre: proof { reveal_strlit(""); }
props: C16 C17
ens[shown]: res is Ok ==> final($0)@ =~= old($0)@ + self.shown()
clo[map#0] ret: String
clo[map#0] ens: $r@ =~= "//"@ + $c0.shown()
== Default for Uri::default
props: C17
ens[is]: res.schema is None && res.hier_path is None && res.query is None && res.fragment is None
== Uri::new
props: C16 C17
ens[is]: res.schema == $0 && res.hier_path == $1 && res.query == $2 && res.fragment == $3
== Uri::schema
props: C16 C17
ens[is]: match res { Some(x) => self.schema == Some(*x), None => self.schema is None }
== Uri::authority
props: C16 C17
ens[is]: match res { Some(x) => self.hier_path is Some && self.hier_path->0.authority == Some(*x), None => self.hier_path is None || self.hier_path->0.authority is None }
== Uri::host_name
props: C15 C16 C17
clo[map#0] ret: &HostName
clo[map#0] ens: *$r == $c0.host_name
ens[is]: match res { Some(x) => self.hier_path is Some && self.hier_path->0.authority is Some && self.hier_path->0.authority->0.host_name == *x, None => self.hier_path is None || self.hier_path->0.authority is None }
== Uri::port
props: C15 C16 C17
clo[and_then#0] ret: Option<u16>
clo[and_then#0] ens: $r == $c0.port
ens[is]: match res { Some(x) => self.hier_path is Some && self.hier_path->0.authority is Some && self.hier_path->0.authority->0.port == Some(x), None => self.hier_path is None || self.hier_path->0.authority is None || self.hier_path->0.authority->0.port is None }
== Uri::user_info
props: C15 C16 C17
clo[and_then#0] ret: Option<&UserInfo>
clo[and_then#0] ens: match $r { Some(u) => $c0.user_info == Some(*u), None => $c0.user_info is None }
ens[is]: match res { Some(x) => self.hier_path is Some && self.hier_path->0.authority is Some && self.hier_path->0.authority->0.user_info == Some(*x), None => self.hier_path is None || self.hier_path->0.authority is None || self.hier_path->0.authority->0.user_info is None }
== Uri::path
props: C16 C17
clo[map#0] ret: &Path
clo[map#0] ens: *$r == $c0.path
ens[is]: match res { Some(x) => self.hier_path is Some && self.hier_path->0.path == *x, None => self.hier_path is None }
== Uri::query
props: C16 C17
ens[is]: match res { Some(x) => self.query == Some(*x), None => self.query is None }
== Uri::fragment
props: C16 C17
ens[is]: match res { Some(x) => self.fragment == Some(*x), None => self.fragment is None }
== Uri::is_absolute
props: C16 C17
ens[is]: res == (self.fragment is None)
== Display for Uri::fmt
pre: proof { reveal_strlit(""); }
props: C16
clo[map#0] ret: String
clo[map#0] ens: $r@ =~= $c0.shown()
clo[map#1] ret: String
clo[map#1] ens: $r@ =~= opt_text("//"@, match $c0.authority { Some(a) => Some(a.shown()), None => None })
clo[map#2] ret: String
clo[map#2] ens: $r@ =~= "//"@ + $c0.shown()
clo[map#3] ret: String
clo[map#3] ens: $r@ =~= $c0.path.shown()
clo[map#4] ret: String
clo[map#4] ens: $r@ =~= "?"@ + $c0.shown()
clo[map#5] ret: String
clo[map#5] ens: $r@ =~= "#"@ + $c0@
ens[shown]: res is Ok ==> final($0)@ =~= old($0)@ + self.shown()
