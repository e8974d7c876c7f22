# the URI grammar, in terms of the parsers' contracts (proved in the unit `parser`) and the models' (unit `uri`)
== pct_encoded
props: C15 C16
rel[escape]: slc(pct_at($s.input@, $s.offset as int), $s, $r)
== unreserved
props: C15 C16
rel[class]: slc(one_at($s.input@, $s.offset as int, unres($s.input@[$s.offset as int])), $s, $r)
== sub_delims
props: C15 C16
rel[class]: slc(one_at($s.input@, $s.offset as int, sub($s.input@[$s.offset as int])), $s, $r)
== sub_delims_without_eq_ampersand
props: C16 C17
rel[class]: slc(one_at($s.input@, $s.offset as int, sub_no_eq_amp($s.input@[$s.offset as int])), $s, $r)
== gen_delims
props: C16
rel[class]: slc(one_at($s.input@, $s.offset as int, gen_c($s.input@[$s.offset as int])), $s, $r)
== reserved
props: C16
rel[class]: slc(one_at($s.input@, $s.offset as int, gen_c($s.input@[$s.offset as int]) || sub($s.input@[$s.offset as int])), $s, $r)
== pchar
props: C16
rel[class]: slc(pchar_at($s.input@, $s.offset as int), $s, $r)
== pchar_without_eq_amp
props: C16 C17
rel[class]: slc(pchar_no_eq_amp_at($s.input@, $s.offset as int), $s, $r)
== scheme
props: C16
rel[scheme]: gives(scheme_at($s.input@, $s.offset as int), $s, $r)
pre: proof { vx_gram::lemma_scheme_char_f(); }
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
== fragment
props: C16
rel[fragment]: gives(Some(frag_at($s.input@, $s.offset as int)), $s, $r)
pre: proof { vx_gram::lemma_frag_f(); }
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
== user_info
props: C15
rel[user-info]: gives(Some(user_info_at($s.input@, $s.offset as int)), $s, $r)
pre: proof { vx_gram::lemma_user_f(); vx_gram::lemma_pass_f(); }
clo[#0] ret: Parser<'a, u8, &'a [u8]>
clo[#0] ens: cuts($r, user_f())
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
clo[map#1] ret: Vec<u8>
clo[map#1] ens: $r@ =~= $c0@
clo[map#2] ty0: (String, Option<String>)
clo[map#2] ret: UserInfo
clo[map#2] ens: $r == (UserInfo { user_name: $c0.0, password: $c0.1 })
== query
props: C16 C17
rel[query]: match query_at($s.input@, $s.offset as int) { (ps, e) => $r is Success && $r->value.params@ == ps && $r->length == e - $s.offset }
pre: proof { vx_gram::lemma_query(); }
clo[#0] ret: Parser<'a, u8, String>
clo[#0] ens: reads($r, key_text_f())
clo[#1] ret: Parser<'a, u8, String>
clo[#1] ens: reads($r, val_text_f())
clo[#2] ret: Parser<'a, u8, (String, Option<String>)>
clo[#2] ens: reads($r, pair_f())
clo[#2] pre: proof { reveal(pair_at); }
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
clo[map#1] ret: Vec<u8>
clo[map#1] ens: $r@ =~= $c0@
clo[map#2] ty0: ((String, Option<String>), Vec<(String, Option<String>)>)
clo[map#2] ret: Query
clo[map#2] ens: $r.params@ =~= seq![$c0.0] + $c0.1@
== port
props: C15
rel[port]: gives(port_at($s.input@, $s.offset as int), $s, $r)
pre: proof { vx_gram::lemma_digits(); }
clo[map_res#0] ty0: String
clo[map_res#0] ret: Result<u16, VxParseError>
clo[map_res#0] ens: u16::from_text($c0@, $r)
== vx_dec_octet_p1
props: C15
rettype: Parser<'a, u8, &'a [u8]>
rel[octet]: slc(oct1_at($s.input@, $s.offset as int), $s, $r)
== vx_dec_octet_p2
props: C15
rettype: Parser<'a, u8, &'a [u8]>
rel[octet]: slc(oct2_at($s.input@, $s.offset as int), $s, $r)
== vx_dec_octet_p3
props: C15
rettype: Parser<'a, u8, &'a [u8]>
rel[octet]: slc(oct3_at($s.input@, $s.offset as int), $s, $r)
== vx_dec_octet_p4
props: C15
rettype: Parser<'a, u8, &'a [u8]>
rel[octet]: slc(oct4_at($s.input@, $s.offset as int), $s, $r)
== vx_dec_octet_p5
props: C15
rettype: Parser<'a, u8, &'a [u8]>
rel[octet]: slc(oct5_at($s.input@, $s.offset as int), $s, $r)
== dec_octet
props: C15
rel[octet]: gives(octet_at($s.input@, $s.offset as int), $s, $r)
pre: proof { vx_gram::lemma_octets(); }
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
clo[map_res#0] ty0: String
clo[map_res#0] ret: Result<u8, VxParseError>
clo[map_res#0] ens: u8::from_text($c0@, $r)
== ip_v4_address
props: C15
rel[address]: gives(v4_at($s.input@, $s.offset as int), $s, $r)
clo[map#0] ty0: (((u8, u8), u8), u8)
clo[map#0] ret: Ipv4Addr
clo[map#0] ens: $r == v4_of($c0.0.0.0, $c0.0.0.1, $c0.0.1, $c0.1)
== reg_name
props: C15
rel[name]: gives(name_at($s.input@, $s.offset as int), $s, $r)
pre: proof { vx_gram::lemma_user_f(); }
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
clo[map#1] ty0: String
clo[map#1] ret: HostName
clo[map#1] ens: $r == HostName::RegName($c0)
== ip_v_future
props: C15
rel[literal]: gives(future_at($s.input@, $s.offset as int), $s, $r)
pre: proof { vx_gram::lemma_hex_f(); vx_gram::lemma_future_f(); }
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
== H16::to_u16
props: C15
ens[is]: res == self.0
== h16
props: C15
rel[group]: gives(h16_at($s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(h16_at); vx_gram::lemma_hex_runs(); }
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
clo[map_res#0] ty0: String
clo[map_res#0] ret: Result<u16, VxParseError>
clo[map_res#0] ens: hex_text($c0@) && $c0@.len() <= 4 ==> $r == Ok::<u16, VxParseError>(hex($c0@) as u16)
clo[map#1] ty0: u16
clo[map#1] ret: H16
clo[map#1] ens: $r == H16($c0)
== ls32
props: C15
rel[last-32-bits]: gives(ls32_at($s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(ls32_at); }
clo[map#0] ty0: (H16, H16)
clo[map#0] ret: LS32
clo[map#0] ens: $r == LS32::Ls32($c0.0, $c0.1)
clo[map#1] ty0: Ipv4Addr
clo[map#1] ret: LS32
clo[map#1] ens: $r == LS32::Ipv4Address($c0)
== segment
props: C16
rel[segment]: slc(Some(run(pchar_f(), $s.input@, $s.offset as int)), $s, $r)
pre: proof { vx_gram::lemma_pchar_f(); }
== seqment_nz
props: C16
rel[segment]: slc(run1(pchar_f(), $s.input@, $s.offset as int), $s, $r)
pre: proof { vx_gram::lemma_pchar_f(); }
== seqment_nz_nc
props: C16
rel[segment]: slc(run1(nc_f(), $s.input@, $s.offset as int), $s, $r)
pre: proof { vx_gram::lemma_nc_f(); }
== path_abempty
props: C16
rel[path]: gives_path(abempty_at($0, $s.input@, $s.offset as int), 1, $s, $r)
pre: proof { vx_gram::lemma_seg_f(); }
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
clo[map#1] ty0: Vec<String>
clo[map#1] ret: Path
clo[map#1] ens: is_path($r, 1, texts($c0@))
== path_rootless
props: C16
rel[path]: gives_path(segments_at(pchar_f(), $s.input@, $s.offset as int), 0, $s, $r)
pre: proof { vx_gram::lemma_seg_f(); vx_gram::lemma_seg_f(); }
clo[map#0] ty0: (&'a [u8], Vec<&'a [u8]>)
clo[map#0] ret: Vec<&'a [u8]>
clo[map#0] ens: $r@ =~= seq![$c0.0] + $c0.1@
clo[map#1] ty0: Vec<&'a [u8]>
clo[map#1] ret: Vec<String>
clo[map#1] req: all_ascii($c0@)
clo[map#1] ens: texts($r@) =~= str_texts(views($c0@))
clo[map#2] ret: Vec<u8>
clo[map#2] ens: $r@ =~= $c0@
clo[map#3] ty0: Vec<u8>
clo[map#3] ret: String
clo[map#3] req: ascii($c0@)
clo[map#3] ens: $r == str_of($c0@)
clo[map#4] ty0: Vec<String>
clo[map#4] ret: Path
clo[map#4] ens: is_path($r, 0, texts($c0@))
== path_noscheme
props: C16
rel[path]: gives_path(segments_at(nc_f(), $s.input@, $s.offset as int), 0, $s, $r)
pre: proof { vx_gram::lemma_seg_f(); vx_gram::lemma_nc_f(); }
clo[map#0] ty0: (&'a [u8], Vec<&'a [u8]>)
clo[map#0] ret: Vec<&'a [u8]>
clo[map#0] ens: $r@ =~= seq![$c0.0] + $c0.1@
clo[map#1] ty0: Vec<&'a [u8]>
clo[map#1] ret: Vec<String>
clo[map#1] req: all_ascii($c0@)
clo[map#1] ens: texts($r@) =~= str_texts(views($c0@))
clo[map#2] ret: Vec<u8>
clo[map#2] ens: $r@ =~= $c0@
clo[map#3] ty0: Vec<u8>
clo[map#3] ret: String
clo[map#3] req: ascii($c0@)
clo[map#3] ens: $r == str_of($c0@)
clo[map#4] ty0: Vec<String>
clo[map#4] ret: Path
clo[map#4] ens: is_path($r, 0, texts($c0@))
== vx_path_absolute_p
props: C16
rettype: Parser<'a, u8, Option<Vec<&'a [u8]>>>
rel[segments]: opt_segments_post($s, $r)
pre: proof { vx_gram::lemma_seg_f(); }
clo[map#0] ty0: (&'a [u8], Vec<&'a [u8]>)
clo[map#0] ret: Vec<&'a [u8]>
clo[map#0] ens: $r@ =~= seq![$c0.0] + $c0.1@
== path_absolute
props: C16
rel[path]: gives_path(absolute_at($s.input@, $s.offset as int), 2, $s, $r)
pre: proof { vx_gram::lemma_seg_f(); }
clo[map#0] ty0: (&'a [u8], Option<Vec<&'a [u8]>>)
clo[map#0] ret: Vec<&'a [u8]>
clo[map#0] ens: $r@ =~= match $c0.1 { Some(b) => seq![$c0.0] + b@, None => seq![$c0.0] }
clo[map#1] ty0: Vec<&'a [u8]>
clo[map#1] ret: Vec<String>
clo[map#1] req: all_ascii($c0@)
clo[map#1] ens: texts($r@) =~= str_texts(views($c0@))
clo[map#2] ret: Vec<u8>
clo[map#2] ens: $r@ =~= $c0@
clo[map#3] ty0: Vec<u8>
clo[map#3] ret: String
clo[map#3] req: ascii($c0@)
clo[map#3] ens: $r == str_of($c0@)
clo[map#4] ty0: Vec<String>
clo[map#4] ret: Path
clo[map#4] ens: is_path($r, 2, texts($c0@))
== path
props: C16
rel[path]: path_post($s, $r)
pre: proof { vx_gram::lemma_seg_f(); vx_gram::lemma_paths(); }
== ip_v6_address1
props: C15
rel[address]: gives_or_fails(form1_at($s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(groups_at); vx_gram::lemma_groups(); }
clo[map#0] ty0: (Vec<H16>, LS32)
clo[map#0] ret: Ipv6Addr
clo[map#0] req: $c0.0@.len() == 6
clo[map#0] ens: $r == v6_of((numbers($c0.0@) + ls_groups($c0.1)))
clo[map#1] ret: u16
clo[map#1] ens: $r == $c0.0
== ip_v6_address2
props: C15
rel[address]: gives_or_fails(form2_at($s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(groups_at); vx_gram::lemma_groups(); }
clo[map#0] ty0: (Vec<H16>, LS32)
clo[map#0] ret: Ipv6Addr
clo[map#0] req: $c0.0@.len() == 5
clo[map#0] ens: $r == v6_of(seq![0u16] + (numbers($c0.0@) + ls_groups($c0.1)))
clo[map#1] ret: u16
clo[map#1] ens: $r == $c0.0
== ip_v6_address3
props: C15
rel[address]: gives_or_fails(form3_at($s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(groups_at); vx_gram::lemma_groups(); }
clo[map#0] ty0: ((Option<H16>, Vec<H16>), LS32)
clo[map#0] ret: Ipv6Addr
clo[map#0] req: $c0.0.1@.len() == 4
clo[map#0] ens: $r == v6_of(with_top($c0.0.0, numbers($c0.0.1@) + ls_groups($c0.1)))
clo[map#1] ret: u16
clo[map#1] ens: $r == $c0.0
clo[map#2] ret: u16
clo[map#2] ens: $r == $c0.0
clo[map#3] ret: u16
clo[map#3] ens: $r == $c0.0
== ip_v6_address_p1
props: C15
rel[left]: slc(Some(left_end($s.input@, $s.offset as int, $0 as int)), $s, $r)
pre: proof { reveal(left_end); vx_gram::lemma_colon_groups(); }
clo[map#0] ty0: (H16, Vec<H16>)
clo[map#0] ret: ()
clo[map#0] ens: true
clo[fold#0] ret: Vec<H16>
clo[fold#0] ens: true
== ip_v6_address_p2
props: C15
rel[text]: slc_or_fails(form_end($s.input@, $s.offset as int, $0 as int, $1 as int), $s, $r)
pre: proof { reveal(form_end); reveal(groups_at); vx_gram::lemma_group_ends(); }
== ip_v6_address4
props: C15
rel[address]: gives_or_fails(v6_text_at($s.input@, $s.offset as int, form_end($s.input@, $s.offset as int, 1, 3)), $s, $r)
pre: proof { vx_gram::lemma_forms_ascii(); }
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
clo[map_res#0] ty0: String
clo[map_res#0] ret: Result<Ipv6Addr, VxParseError>
clo[map_res#0] ens: Ipv6Addr::from_text($c0@, $r)
== ip_v6_address5
props: C15
rel[address]: gives_or_fails(v6_text_at($s.input@, $s.offset as int, form_end($s.input@, $s.offset as int, 2, 2)), $s, $r)
pre: proof { vx_gram::lemma_forms_ascii(); }
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
clo[map_res#0] ty0: String
clo[map_res#0] ret: Result<Ipv6Addr, VxParseError>
clo[map_res#0] ens: Ipv6Addr::from_text($c0@, $r)
== ip_v6_address6
props: C15
rel[address]: gives_or_fails(v6_text_at($s.input@, $s.offset as int, form_end($s.input@, $s.offset as int, 3, 1)), $s, $r)
pre: proof { vx_gram::lemma_forms_ascii(); }
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
clo[map_res#0] ty0: String
clo[map_res#0] ret: Result<Ipv6Addr, VxParseError>
clo[map_res#0] ens: Ipv6Addr::from_text($c0@, $r)
== ip_v6_address7
props: C15
rel[address]: gives_or_fails(v6_text_at($s.input@, $s.offset as int, form7_end($s.input@, $s.offset as int)), $s, $r)
pre: proof { vx_gram::lemma_forms_ascii(); reveal(form7_end); }
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
clo[map_res#0] ty0: String
clo[map_res#0] ret: Result<Ipv6Addr, VxParseError>
clo[map_res#0] ens: Ipv6Addr::from_text($c0@, $r)
== ip_v6_address8
props: C15
rel[address]: gives_or_fails(v6_text_at($s.input@, $s.offset as int, form8_end($s.input@, $s.offset as int)), $s, $r)
pre: proof { vx_gram::lemma_forms_ascii(); reveal(form8_end); }
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
clo[map_res#0] ty0: String
clo[map_res#0] ret: Result<Ipv6Addr, VxParseError>
clo[map_res#0] ens: Ipv6Addr::from_text($c0@, $r)
== ip_v6_address9
props: C15
rel[address]: gives_or_fails(v6_text_at($s.input@, $s.offset as int, form9_end($s.input@, $s.offset as int)), $s, $r)
pre: proof { vx_gram::lemma_forms_ascii(); reveal(form9_end); }
clo[map#0] ret: Vec<u8>
clo[map#0] ens: $r@ =~= $c0@
clo[map_res#0] ty0: String
clo[map_res#0] ret: Result<Ipv6Addr, VxParseError>
clo[map_res#0] ens: Ipv6Addr::from_text($c0@, $r)
== ip_v6_address
props: C15
rel[address]: gives_or_fails(v6_at($s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(v6_at); }
== ip_literal
props: C15
rel[literal]: gives_or_fails(literal_at($s.input@, $s.offset as int), $s, $r)
pre: proof { reveal(literal_at); }
clo[map#0] ty0: Ipv6Addr
clo[map#0] ret: IpLiteral
clo[map#0] ens: $r == IpLiteral::Ipv6Address($c0)
clo[map#1] ty0: String
clo[map#1] ret: IpLiteral
clo[map#1] ens: $r == IpLiteral::IpvFuture($c0)
== host
props: C15
rel[host]: $r is Success && $r->length == host_end($s.input@, $s.offset as int) - $s.offset && host_is($r->value, $s.input@, $s.offset as int)
pre: proof { reveal(host_end); reveal(host_is); }
clo[map#0] ty0: IpLiteral
clo[map#0] ret: HostName
clo[map#0] ens: $r == HostName::IpLiteral($c0)
clo[map#1] ty0: Ipv4Addr
clo[map#1] ret: HostName
clo[map#1] ens: $r == HostName::Ipv4Address($c0)
== authority
props: C15
rel[authority]: $r is Success && $r->length == auth_end($s.input@, $s.offset as int) - $s.offset && auth_is($r->value, $s.input@, $s.offset as int)
pre: proof { reveal(auth_end); reveal(auth_is); }
clo[map#0] ty0: ((Option<UserInfo>, HostName), Option<u16>)
clo[map#0] ret: Authority
clo[map#0] ens: $r.user_info == $c0.0.0 && $r.host_name == $c0.0.1 && $r.port == $c0.1
== vx_hier_part_p1
props: C16
rettype: Parser<'a, u8, HierPart>
rel[with-authority]: if two_slashes($s.input@, $s.offset as int) { hier_gives($s, $r) } else { $r is Failure }
pre: proof { reveal(hier_end); reveal(hier_is); }
clo[map#0] ty0: (Authority, Path)
clo[map#0] ret: HierPart
clo[map#0] ens: $r.authority == Some($c0.0) && $r.path == $c0.1
== vx_hier_part_p2
props: C16
rettype: Parser<'a, u8, HierPart>
rel[without]: if !two_slashes($s.input@, $s.offset as int) && hier_there($s.input@, $s.offset as int) { hier_gives($s, $r) } else { $r is Failure }
pre: proof { reveal(hier_end); reveal(hier_is); }
clo[map#0] ty0: Path
clo[map#0] ret: HierPart
clo[map#0] ens: $r.authority is None && $r.path == $c0
== hier_part
props: C16
rel[hier-part]: $r is Success && $r->length == hier_end($s.input@, $s.offset as int) - $s.offset && hier_is($r->value, $s.input@, $s.offset as int)
pre: proof { reveal(hier_end); reveal(hier_is); }
== absolute_uri
props: C16
rel[uri]: uri_post(false, $s, $r)
pre: proof { reveal(uri_end); reveal(uri_is); }
clo[map#0] ty0: ((Option<Scheme>, Option<HierPart>), Option<Query>)
clo[map#0] ret: Uri
clo[map#0] ens: $r.schema == $c0.0.0 && $r.hier_path == $c0.0.1 && $r.query == $c0.1 && $r.fragment is None
== uri
props: C15 C16 C17
rel[uri]: uri_post(true, $s, $r)
pre: proof { reveal(uri_end); reveal(uri_is); }
clo[map#0] ty0: (((Option<Scheme>, Option<HierPart>), Option<Query>), Option<String>)
clo[map#0] ret: Uri
clo[map#0] ens: $r.schema == $c0.0.0.0 && $r.hier_path == $c0.0.0.1 && $r.query == $c0.0.1 && $r.fragment == $c0.1
== Uri::parse
props: C15 C16 C17
ens[whole]: if whole_uri(utf8($0@)) { res is Ok && uri_is(res->Ok_0, utf8($0@), 0, true) } else { res is Err }
