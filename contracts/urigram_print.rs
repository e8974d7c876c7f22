// ---- printing a parsed URI gives its text back (lemmas over the contracts of uri and of the Display of every model)
/// the characters from i to e
pub open spec fn piece(x: Seq<u8>, i: int, e: int) -> Seq<char> { asc(x.subrange(i, e)) }
/// the host as it is printed: as it is written, but an IPv6 address in its normal form
#[verifier::opaque]
pub open spec fn host_text(x: Seq<u8>, i: int) -> Seq<char> {
  match literal_at(x, i) { Some((IpLiteral::Ipv6Address(a), _)) => "["@ + a.text() + "]"@, _ => piece(x, i, host_end(x, i)) }
}
/// a port is printed as a number, and an empty one not at all
pub open spec fn port_text(x: Seq<u8>, i: int) -> Seq<char> { match port_part_at(x, i).0 { Some(p) => ":"@ + decimal(p as int), None => Seq::<char>::empty() } }
/// the text that a whole URI is printed as
#[verifier::opaque]
pub open spec fn printed(x: Seq<u8>) -> Seq<char> {
  let j = scheme_end(x, 0) + 1;
  if two_slashes(x, j) {
    let h = user_at(x, j + 2).1;
    piece(x, 0, h) + host_text(x, h) + port_text(x, host_end(x, h)) + piece(x, auth_end(x, j + 2), x.len() as int)
  } else { piece(x, 0, x.len() as int) }
}
pub mod vx_print {
use super::*;
use super::vx_gram::*;
use vstd::prelude::*;
// ASSUMED: an ASCII text is its bytes; the standard library prints an IPv4 address as its four numbers with dots between them
pub axiom fn axiom_str_of(b: Seq<u8>) ensures ascii(b) ==> str_of(b)@ == asc(b);
pub axiom fn axiom_v4_text(a: u8, b: u8, c: u8, d: u8)
  ensures v4_of(a, b, c, d).text() == decimal(a as int) + "."@ + decimal(b as int) + "."@ + decimal(c as int) + "."@ + decimal(d as int);

proof fn lemma_cut(x: Seq<u8>, a: int, b: int, c: int)
  requires 0 <= a <= b <= c <= x.len()
  ensures piece(x, a, b) + piece(x, b, c) == piece(x, a, c)
{ assert(piece(x, a, b) + piece(x, b, c) =~= piece(x, a, c)); }
proof fn lemma_one(x: Seq<u8>, i: int, c: u8)
  requires is_at(x, i, c)
  ensures piece(x, i, i + 1) == seq![c as char]
{ assert(piece(x, i, i + 1) =~= seq![c as char]); }
proof fn lemma_text(x: Seq<u8>, i: int, e: int)
  requires 0 <= i <= e <= x.len(), asc_in(x, i, e)
  ensures text_of(x, i, e)@ == piece(x, i, e)
{
  axiom_str_of(x.subrange(i, e));
  assert forall|k: int| 0 <= k < x.subrange(i, e).len() implies #[trigger] x.subrange(i, e)[k] < 128 by { assert(x.subrange(i, e)[k] == x[i + k]); }
}
proof fn lemma_none(x: Seq<u8>, i: int) requires 0 <= i <= x.len() ensures piece(x, i, i) == Seq::<char>::empty() { assert(piece(x, i, i) =~= Seq::<char>::empty()); }
/// joining from the front
proof fn lemma_front(xs: Seq<Seq<char>>, sep: Seq<char>)
  requires xs.len() >= 2
  ensures joined(xs, sep) == xs[0] + sep + joined(xs.drop_first(), sep)
  decreases xs.len()
{
  let t = xs.drop_first();
  if xs.len() == 2 { assert(xs.drop_last() =~= seq![xs[0]]); assert(t =~= seq![xs[1]]); assert(joined(xs.drop_last(), sep) == xs[0]); assert(joined(t, sep) == xs[1]); assert(xs.last() == xs[1]); }
  else {
    lemma_front(xs.drop_last(), sep);
    assert(xs.drop_last().drop_first() =~= t.drop_last());
    assert(joined(xs, sep) =~= xs[0] + sep + joined(t, sep));
  }
}
proof fn lemma_cons(a: Seq<char>, rest: Seq<Seq<char>>, sep: Seq<char>)
  ensures joined(seq![a] + rest, sep) == (if rest.len() == 0 { a } else { a + sep + joined(rest, sep) })
{
  let xs = seq![a] + rest;
  if rest.len() > 0 { lemma_front(xs, sep); assert(xs.drop_first() =~= rest); }
}
proof fn lemma_segments(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures joined(str_texts(prun(seg_f(), x, i)), ""@) == piece(x, i, run(seg_f(), x, i)), i <= run(seg_f(), x, i) <= x.len(), prun(seg_f(), x, i).len() == 0 ==> run(seg_f(), x, i) == i
  decreases x.len() - i
{
  lemma_seg_f();
  lemma_run_ascii(seg_f(), x, i);
  reveal(good);
  reveal_strlit("");
  if seg_f()(x, i) is Some {
    let e = seg_f()(x, i)->0;
    lemma_segments(x, e);
    lemma_text(x, i, e);
    let rest = str_texts(prun(seg_f(), x, e));
    assert(str_texts(prun(seg_f(), x, i)) =~= seq![piece(x, i, e)] + rest);
    lemma_cons(piece(x, i, e), rest, ""@);
    lemma_cut(x, i, e, run(seg_f(), x, e));
    assert(""@ =~= Seq::<char>::empty());
    assert(piece(x, i, e) + ""@ + joined(rest, ""@) =~= piece(x, i, e) + joined(rest, ""@));
  } else {
    lemma_none(x, i);
    assert(str_texts(prun(seg_f(), x, i)).len() == 0);
  }
}
proof fn lemma_rootless(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len(), segments_at(pchar_f(), x, i) is Some
  ensures ({ let t = segments_at(pchar_f(), x, i)->0; i < t.1 <= x.len() && joined(str_texts(t.0), ""@) == piece(x, i, t.1) })
{
  let t = segments_at(pchar_f(), x, i)->0;
  let e = run(pchar_f(), x, i);
  lemma_pchar_f();
  lemma_run_ascii(pchar_f(), x, i);
  reveal(good);
  lemma_run_ascii(pchar_f(), x, pchar_f()(x, i)->0);
  lemma_segments(x, e);
  lemma_text(x, i, e);
  let rest = str_texts(prun(seg_f(), x, e));
  assert(str_texts(t.0) =~= seq![piece(x, i, e)] + rest);
  lemma_cons(piece(x, i, e), rest, ""@);
  lemma_cut(x, i, e, t.1);
  reveal_strlit("");
  assert(""@ =~= Seq::<char>::empty());
  lemma_none(x, e);
  assert(piece(x, i, e) + ""@ + joined(rest, ""@) =~= piece(x, i, e) + joined(rest, ""@));
}
/// a pair of a query, and the pairs that follow
proof fn lemma_pair(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures i <= pair_at(x, i).1 <= x.len(), pair_text(pair_at(x, i).0) == piece(x, i, pair_at(x, i).1)
{
  reveal(pair_at);
  reveal_strlit("=");
  lemma_key_f();
  lemma_val_f();
  let e = run(key_f(), x, i);
  lemma_run_ascii(key_f(), x, i);
  lemma_text(x, i, e);
  if is_at(x, e, 61) {
    let f = run(val_f(), x, e + 1);
    lemma_run_ascii(val_f(), x, e + 1);
    lemma_text(x, e + 1, f);
    lemma_one(x, e, 61);
    lemma_cut(x, e, e + 1, f);
    lemma_cut(x, i, e, f);
    assert("="@ =~= seq![61u8 as char]);
  }
}
proof fn lemma_amps(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures ({ let m = vrun(amp_pair_f(), x, i); i <= m.1 <= x.len() && (m.0.len() == 0 ==> m.1 == i) && (m.0.len() > 0 ==> "&"@ + query_text(m.0) == piece(x, i, m.1)) })
  decreases x.len() - i
{
  let m = vrun(amp_pair_f(), x, i);
  if is_at(x, i, 38) {
    let p = pair_at(x, i + 1);
    assert(amp_pair_f()(x, i) == Some(p));
    lemma_pair(x, i + 1);
    lemma_amps(x, p.1);
    lemma_pairs(p.0, vrun(amp_pair_f(), x, p.1).0);
    let q = vrun(amp_pair_f(), x, p.1);
    assert(m.0 == seq![p.0] + q.0);
    reveal_strlit("&");
    lemma_one(x, i, 38);
    assert("&"@ =~= seq![38u8 as char]);
    lemma_cut(x, i, i + 1, p.1);
    lemma_cut(x, i, p.1, m.1);
    lemma_cut(x, i + 1, p.1, m.1);
    lemma_cut(x, i, i + 1, m.1);
    if q.0.len() > 0 {
      assert(piece(x, i + 1, p.1) + "&"@ + query_text(q.0) =~= piece(x, i + 1, p.1) + ("&"@ + query_text(q.0)));
    } else { lemma_none(x, p.1); }
  }
}
proof fn lemma_pairs(p: (String, Option<String>), rest: Seq<(String, Option<String>)>)
  ensures query_text(seq![p] + rest) == (if rest.len() == 0 { pair_text(p) } else { pair_text(p) + "&"@ + query_text(rest) })
{
  let ts = Seq::new(rest.len(), |i: int| pair_text(rest[i]));
  let all = seq![p] + rest;
  lemma_cons(pair_text(p), ts, "&"@);
  assert(Seq::new(all.len(), |i: int| pair_text(all[i])) =~= seq![pair_text(p)] + ts);
}
proof fn lemma_query_text(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures ({ let q = query_at(x, i); i <= q.1 <= x.len() && query_text(q.0) == piece(x, i, q.1) })
{
  let a = pair_at(x, i);
  lemma_pair(x, i);
  lemma_amps(x, a.1);
  let m = vrun(amp_pair_f(), x, a.1);
  lemma_pairs(a.0, m.0);
  lemma_cut(x, i, a.1, m.1);
  if m.0.len() > 0 { assert(pair_text(a.0) + "&"@ + query_text(m.0) =~= pair_text(a.0) + ("&"@ + query_text(m.0))); }
}
/// an octet is written the way it is printed
proof fn lemma_octet_text(x: Seq<u8>, i: int)
  requires octet_at(x, i) is Some
  ensures 0 <= i < (octet_at(x, i)->0).1 <= x.len(), decimal((octet_at(x, i)->0).0 as int) == piece(x, i, (octet_at(x, i)->0).1)
{
  reveal(octet_at);
  reveal_with_fuel(decimal, 4);
  let v = (octet_at(x, i)->0).0 as int;
  let e = (octet_at(x, i)->0).1;
  assert(decimal(v) =~= piece(x, i, e));
}
proof fn lemma_v4_printed(x: Seq<u8>, i: int)
  requires v4_at(x, i) is Some
  ensures 0 <= i < (v4_at(x, i)->0).1 <= x.len(), (v4_at(x, i)->0).0.text() == piece(x, i, (v4_at(x, i)->0).1)
{
  let a = octet_at(x, i)->0;
  let b = octet_at(x, a.1 + 1)->0;
  let c = octet_at(x, b.1 + 1)->0;
  let d = octet_at(x, c.1 + 1)->0;
  lemma_octet_text(x, i);
  lemma_octet_text(x, a.1 + 1);
  lemma_octet_text(x, b.1 + 1);
  lemma_octet_text(x, c.1 + 1);
  axiom_v4_text(a.0, b.0, c.0, d.0);
  reveal_strlit(".");
  assert("."@ =~= seq![46u8 as char]);
  lemma_one(x, a.1, 46);
  lemma_one(x, b.1, 46);
  lemma_one(x, c.1, 46);
  lemma_cut(x, i, a.1, a.1 + 1);
  lemma_cut(x, i, a.1 + 1, b.1);
  lemma_cut(x, i, b.1, b.1 + 1);
  lemma_cut(x, i, b.1 + 1, c.1);
  lemma_cut(x, i, c.1, c.1 + 1);
  lemma_cut(x, i, c.1 + 1, d.1);
}
proof fn lemma_future_ascii(x: Seq<u8>, i: int)
  requires future_at(x, i) is Some
  ensures 0 <= i < (future_at(x, i)->0).1 <= x.len(), asc_in(x, i, (future_at(x, i)->0).1)
{
  lemma_hex_f();
  lemma_future_f();
  lemma_run_ascii(hex_f(), x, i + 1);
  let j = run(hex_f(), x, i + 1);
  lemma_run_ascii(future_f(), x, j + 1);
}
proof fn lemma_host_text(h: HostName, x: Seq<u8>, i: int)
  requires 0 <= i <= x.len(), host_is(h, x, i)
  ensures h.shown() == host_text(x, i), i <= host_end(x, i) <= x.len()
{
  reveal(host_is);
  reveal(host_end);
  reveal(host_text);
  reveal(literal_at);
  if literal_at(x, i) is Some {
    let t = literal_at(x, i)->0;
    match v6_at(x, i + 1) {
      Some(a) => { lemma_v6_end(x, i + 1); }
      None => {
        let f = future_at(x, i + 1)->0;
        lemma_future_ascii(x, i + 1);
        lemma_text(x, i + 1, f.1);
        lemma_one(x, i, 91);
        lemma_one(x, f.1, 93);
        lemma_cut(x, i, i + 1, f.1);
        lemma_cut(x, i, f.1, f.1 + 1);
        reveal_strlit("[");
        reveal_strlit("]");
        assert("["@ =~= seq![91u8 as char]);
        assert("]"@ =~= seq![93u8 as char]);
      }
    }
  } else if v4_alone(x, i) { lemma_v4_printed(x, i); }
  else {
    lemma_user_f();
    lemma_run_ascii(user_f(), x, i);
    lemma_text(x, i, run(user_f(), x, i));
    if name_at(x, i) is None { lemma_none(x, i); assert(h.shown() =~= Seq::<char>::empty()); }
  }
}
proof fn lemma_v6_end(x: Seq<u8>, i: int)
  requires v6_at(x, i) is Some, 0 <= i <= x.len()
  ensures i <= (v6_at(x, i)->0).1 <= x.len()
{
  reveal(v6_at);
  reveal(groups_at);
  lemma_forms_ascii();
  if form1_at(x, i) is Some { lemma_groups_end(x, i, 6); }
  else if form2_at(x, i) is Some { lemma_groups_end(x, i + 2, 5); }
  else if form3_at(x, i) is Some {
    if h16_at(x, i) is Some { lemma_h16(x, i); }
    let j = match h16_at(x, i) { Some(t) => t.1, None => i };
    lemma_groups_end(x, j + 2, 4);
  }
}
proof fn lemma_groups_end(x: Seq<u8>, i: int, n: int)
  requires groups_at(x, i, n) is Some, 0 <= i <= x.len()
  ensures i <= (groups_at(x, i, n)->0).1 <= x.len()
{
  reveal(groups_at);
  lemma_groups_ascii(x, i, n);
  lemma_ls32_ascii(x, vrun_n(group_colon_f(), x, i, n).1);
}
proof fn lemma_user_text(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures ({ let u = user_info_at(x, i); i <= u.1 <= x.len() && u.0.shown() == piece(x, i, u.1) })
{
  lemma_user_f();
  lemma_pass_f();
  let e = run(user_f(), x, i);
  lemma_run_ascii(user_f(), x, i);
  lemma_text(x, i, e);
  reveal_strlit(":");
  if is_at(x, e, 58) {
    let f = run(pass_f(), x, e + 1);
    lemma_run_ascii(pass_f(), x, e + 1);
    lemma_text(x, e + 1, f);
    lemma_one(x, e, 58);
    lemma_cut(x, e, e + 1, f);
    lemma_cut(x, i, e, f);
    assert(":"@ =~= seq![58u8 as char]);
  } else { assert(user_info_at(x, i).0.shown() =~= piece(x, i, e)); }
}
proof fn lemma_port_end(x: Seq<u8>, i: int)
  requires 0 <= i <= x.len()
  ensures i <= port_part_at(x, i).1 <= x.len()
{
  lemma_digits();
  if is_at(x, i, 58) { lemma_run_ascii(digit_f(), x, i + 1); }
}
proof fn lemma_auth_text(a: Authority, x: Seq<u8>, i: int)
  requires 0 <= i <= x.len(), auth_is(a, x, i)
  ensures ({ let h = user_at(x, i).1; i <= h <= host_end(x, h) && host_end(x, h) <= auth_end(x, i) <= x.len() && a.shown() == piece(x, i, h) + host_text(x, h) + port_text(x, host_end(x, h)) })
{
  reveal(auth_is);
  reveal(auth_end);
  lemma_user_text(x, i);
  let u = user_info_at(x, i);
  let h = user_at(x, i).1;
  lemma_host_text(a.host_name, x, h);
  lemma_port_end(x, host_end(x, h));
  reveal_strlit("@");
  if is_at(x, u.1, 64) {
    lemma_one(x, u.1, 64);
    lemma_cut(x, i, u.1, u.1 + 1);
    assert("@"@ =~= seq![64u8 as char]);
  } else { lemma_none(x, i); }
  assert(a.shown() =~= piece(x, i, h) + host_text(x, h) + port_text(x, host_end(x, h)));
}
/// an authority as it is printed
pub open spec fn auth_text(x: Seq<u8>, i: int) -> Seq<char> { let h = user_at(x, i).1; piece(x, i, h) + host_text(x, h) + port_text(x, host_end(x, h)) }
pub open spec fn hier_text(x: Seq<u8>, i: int) -> Seq<char> {
  if two_slashes(x, i) { piece(x, i, i + 2) + auth_text(x, i + 2) + piece(x, auth_end(x, i + 2), hier_end(x, i)) } else { piece(x, i, hier_end(x, i)) }
}
proof fn lemma_hier_text(h: Option<HierPart>, x: Seq<u8>, i: int)
  requires 0 <= i <= x.len(), hier_is(h, x, i)
  ensures
    i <= hier_end(x, i) <= x.len(),
    two_slashes(x, i) ==> i + 2 <= user_at(x, i + 2).1 <= auth_end(x, i + 2) <= hier_end(x, i),
    (match h { Some(h) => h.shown(), None => Seq::<char>::empty() }) == hier_text(x, i),
{
  reveal(hier_is);
  reveal(hier_end);
  reveal_strlit("//");
  if two_slashes(x, i) {
    lemma_auth_text(h->0.authority->0, x, i + 2);
    let e = auth_end(x, i + 2);
    lemma_segments(x, e);
    lemma_one(x, i, 47);
    lemma_one(x, i + 1, 47);
    lemma_cut(x, i, i + 1, i + 2);
    assert("//"@ =~= piece(x, i, i + 2));
  } else if is_at(x, i, 47) {
    lemma_segments(x, i);
    assert(h->0.shown() =~= hier_text(x, i));
  } else {
    match segments_at(pchar_f(), x, i) {
      Some(t) => { lemma_rootless(x, i); assert(h->0.shown() =~= hier_text(x, i)); }
      None => { lemma_none(x, i); }
    }
  }
}
proof fn lemma_scheme_text(u: Uri, x: Seq<u8>)
  requires x.len() > 0, match scheme_at(x, 0) { Some(t) => u.schema == Some(t.0), None => u.schema is None }
  ensures 0 <= scheme_end(x, 0) <= x.len(), (match u.schema { Some(s) => s.shown(), None => Seq::<char>::empty() }) == piece(x, 0, scheme_end(x, 0))
{
  lemma_scheme_char_f();
  if scheme_at(x, 0) is Some { lemma_run_ascii(scheme_char_f(), x, 1); assert(asc_in(x, 0, scheme_end(x, 0))); lemma_text(x, 0, scheme_end(x, 0)); } else { lemma_none(x, 0); }
}
proof fn lemma_query_part(u: Uri, x: Seq<u8>, h: int)
  requires 0 <= h <= x.len(), query_is(u.query, x, h)
  ensures h <= query_end(x, h) <= x.len(), opt_text("?"@, match u.query { Some(q) => Some(q.shown()), None => None }) == piece(x, h, query_end(x, h))
{
  reveal_strlit("?");
  if is_at(x, h, 63) {
    lemma_query_text(x, h + 1);
    lemma_one(x, h, 63);
    lemma_cut(x, h, h + 1, query_end(x, h));
    assert("?"@ =~= seq![63u8 as char]);
  } else { lemma_none(x, h); }
}
proof fn lemma_frag_part(u: Uri, x: Seq<u8>, q: int)
  requires 0 <= q <= x.len(), frag_is(u.fragment, x, q)
  ensures q <= frag_end(x, q) <= x.len(), opt_text("#"@, match u.fragment { Some(f) => Some(f@), None => None }) == piece(x, q, frag_end(x, q))
{
  reveal_strlit("#");
  if is_at(x, q, 35) {
    lemma_frag_f();
    lemma_run_ascii(frag_f(), x, q + 1);
    lemma_text(x, q + 1, frag_end(x, q));
    lemma_one(x, q, 35);
    lemma_cut(x, q, q + 1, frag_end(x, q));
    assert("#"@ =~= seq![35u8 as char]);
  } else { lemma_none(x, q); }
}
proof fn lemma_assemble(x: Seq<u8>, j: int, h: int, q: int)
  requires
    1 <= j <= h <= q <= x.len(), h == hier_end(x, j), j == scheme_end(x, 0) + 1,
    two_slashes(x, j) ==> j + 2 <= user_at(x, j + 2).1 <= auth_end(x, j + 2) <= h,
  ensures piece(x, 0, j) + hier_text(x, j) + piece(x, h, q) + piece(x, q, x.len() as int) == printed(x)
{
  reveal(printed);
  let n = x.len() as int;
  let ht = hier_text(x, j);
  lemma_cut(x, h, q, n);
  let all = piece(x, 0, j) + ht + piece(x, h, q) + piece(x, q, n);
  assert(all =~= piece(x, 0, j) + ht + (piece(x, h, q) + piece(x, q, n)));
  if two_slashes(x, j) {
    let s = user_at(x, j + 2).1;
    let e = auth_end(x, j + 2);
    let a = host_text(x, s);
    let b = port_text(x, host_end(x, s));
    lemma_cut(x, 0, j, j + 2);
    lemma_cut(x, 0, j + 2, s);
    lemma_cut(x, e, h, n);
    lemma_glue(piece(x, 0, j), piece(x, j, j + 2), piece(x, j + 2, s), a, b, piece(x, e, h), piece(x, h, n));
  } else {
    lemma_cut(x, 0, j, h);
    lemma_cut(x, 0, h, n);
  }
}
proof fn lemma_glue(p: Seq<char>, ss: Seq<char>, us: Seq<char>, a: Seq<char>, b: Seq<char>, r: Seq<char>, t: Seq<char>)
  ensures p + (ss + (us + a + b) + r) + t == ((p + ss) + us) + a + b + (r + t)
{ assert(p + (ss + (us + a + b) + r) + t =~= ((p + ss) + us) + a + b + (r + t)); }
/// what the contract of uri gives is printed as the text that was read, but for the port and an IPv6 address
pub proof fn theorem_printed(u: Uri, x: Seq<u8>)
  requires whole_uri(x), uri_is(u, x, 0, true)
  ensures u.shown() == printed(x)
{
  reveal(uri_is);
  reveal(uri_end);
  let n = x.len() as int;
  let c = scheme_end(x, 0);
  let h = hier_end(x, c + 1);
  lemma_scheme_text(u, x);
  lemma_one(x, c, 58);
  lemma_cut(x, 0, c, c + 1);
  reveal_strlit(":");
  assert(":"@ =~= seq![58u8 as char]);
  lemma_hier_text(u.hier_path, x, c + 1);
  lemma_query_part(u, x, h);
  lemma_frag_part(u, x, query_end(x, h));
  lemma_assemble(x, c + 1, h, query_end(x, h));
}
/// and when the port is written as a number without leading zeros, and the host is not an IPv6 address, it is the text itself
pub proof fn theorem_same_text(u: Uri, x: Seq<u8>)
  requires whole_uri(x), uri_is(u, x, 0, true), ({
    let j = scheme_end(x, 0) + 1;
    let k = host_end(x, user_at(x, j + 2).1);
    two_slashes(x, j) ==> match literal_at(x, user_at(x, j + 2).1) { Some((IpLiteral::Ipv6Address(a), _)) => false, _ => true }
      && port_text(x, k) == piece(x, k, auth_end(x, j + 2)) })
  ensures u.shown() == asc(x)
{
  theorem_printed(u, x);
  reveal(uri_is);
  reveal(uri_end);
  reveal(printed);
  reveal(hier_is);
  reveal(host_text);
  let n = x.len() as int;
  let j = scheme_end(x, 0) + 1;
  lemma_scheme_text(u, x);
  assert(x.subrange(0, n) =~= x);
  lemma_hier_text(u.hier_path, x, j);
  if two_slashes(x, j) {
    let s = user_at(x, j + 2).1;
    let e = auth_end(x, j + 2);
    lemma_auth_text(u.hier_path->0.authority->0, x, j + 2);
    lemma_cut(x, 0, s, host_end(x, s));
    lemma_cut(x, 0, host_end(x, s), e);
    lemma_cut(x, 0, e, n);
  }
}
}
