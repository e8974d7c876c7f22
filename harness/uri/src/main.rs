// executable contracts of the URI crate (C15, C16, C17), against an independent reading of RFC 3986
#[path = "../../common/mod.rs"]
mod common;
use common::*;
use oni_comb_uri_rs::models::authority::Authority;
use oni_comb_uri_rs::models::hier_part::HierPart;
use oni_comb_uri_rs::models::host_name::{HostName, IpLiteral};
use oni_comb_uri_rs::models::path::Path;
use oni_comb_uri_rs::models::query::Query;
use oni_comb_uri_rs::models::scheme::Scheme;
use oni_comb_uri_rs::models::uri::Uri;
use oni_comb_uri_rs::models::user_info::UserInfo;
use std::net::{Ipv4Addr, Ipv6Addr};

// ---- the oracle: split first, validate after
#[derive(Debug, PartialEq, Clone)]
enum Host {
  Reg(String),
  V4([u8; 4]),
  V6([u16; 8]),
  Future(String),
}
#[derive(Debug, PartialEq, Clone)]
struct Auth {
  user: Option<(String, Option<String>)>,
  host: Host,
  port: Option<u16>,
}
#[derive(Debug, PartialEq, Clone)]
struct Parts {
  scheme: Option<String>,
  auth: Option<Auth>,
  path: String,
  query: Option<String>,
  fragment: Option<String>,
}
fn unreserved(c: u8) -> bool {
  c.is_ascii_alphanumeric() || b"-._~".contains(&c)
}
fn sub_delim(c: u8) -> bool {
  b"!$&'()*+,;=".contains(&c)
}
fn all(s: &str, extra: &[u8]) -> bool {
  let b = s.as_bytes();
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'%' {
      if i + 2 >= b.len() || !b[i + 1].is_ascii_hexdigit() || !b[i + 2].is_ascii_hexdigit() {
        return false;
      }
      i += 3;
    } else if unreserved(b[i]) || sub_delim(b[i]) || extra.contains(&b[i]) {
      i += 1;
    } else {
      return false;
    }
  }
  true
}
fn octet(s: &str) -> Option<u8> {
  if s.is_empty() || s.len() > 3 || !s.bytes().all(|c| c.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) {
    return None;
  }
  s.parse::<u32>().ok().filter(|n| *n < 256).map(|n| n as u8)
}
fn v4(s: &str) -> Option<[u8; 4]> {
  let p: Vec<&str> = s.split('.').collect();
  if p.len() != 4 {
    return None;
  }
  Some([octet(p[0])?, octet(p[1])?, octet(p[2])?, octet(p[3])?])
}
/// the groups of one side of "::"; an IPv4 address may stand for the last two
fn groups(s: &str, last: bool) -> Option<Vec<u16>> {
  if s.is_empty() {
    return Some(vec![]);
  }
  let ps: Vec<&str> = s.split(':').collect();
  let mut out = vec![];
  for (i, p) in ps.iter().enumerate() {
    if last && i + 1 == ps.len() && p.contains('.') {
      let o = v4(p)?;
      out.push((o[0] as u16) << 8 | o[1] as u16);
      out.push((o[2] as u16) << 8 | o[3] as u16);
    } else {
      if p.is_empty() || p.len() > 4 || !p.bytes().all(|c| c.is_ascii_hexdigit()) {
        return None;
      }
      out.push(u16::from_str_radix(p, 16).ok()?);
    }
  }
  Some(out)
}
fn v6(s: &str) -> Option<[u16; 8]> {
  let mut r = [0u16; 8];
  match s.find("::") {
    None => {
      let g = groups(s, true)?;
      if g.len() != 8 {
        return None;
      }
      r.copy_from_slice(&g);
    }
    Some(i) => {
      let (a, b) = (groups(&s[..i], false)?, groups(&s[i + 2..], true)?);
      if a.len() + b.len() > 7 {
        return None;
      }
      r[..a.len()].copy_from_slice(&a);
      r[8 - b.len()..].copy_from_slice(&b);
    }
  }
  Some(r)
}
fn authority(s: &str) -> Option<Auth> {
  let (user, rest) = match s.find('@') {
    None => (None, s),
    Some(i) => {
      let u = &s[..i];
      if !all(u, b":") {
        return None;
      }
      let user = match u.find(':') {
        None => (u.to_string(), None),
        Some(k) => (u[..k].to_string(), Some(u[k + 1..].to_string())),
      };
      (Some(user), &s[i + 1..])
    }
  };
  let (host, port) = if rest.starts_with('[') {
    let e = rest.find(']')?;
    let lit = &rest[1..e];
    let host = match v6(lit) {
      Some(g) => Host::V6(g),
      None => {
        if !lit.starts_with(['v', 'V']) {
          return None;
        }
        let d = lit.find('.')?;
        let (h, t) = (&lit[1..d], &lit[d + 1..]);
        if h.is_empty() || !h.bytes().all(|c| c.is_ascii_hexdigit()) || t.is_empty() || !t.bytes().all(|c| unreserved(c) || sub_delim(c) || c == b':') {
          return None;
        }
        Host::Future(lit.to_string())
      }
    };
    let tail = &rest[e + 1..];
    if !tail.is_empty() && !tail.starts_with(':') {
      return None;
    }
    (host, tail)
  } else {
    let e = rest.find(':').unwrap_or(rest.len());
    let h = &rest[..e];
    if !all(h, b"") {
      return None;
    }
    (v4(h).map_or(Host::Reg(h.to_string()), Host::V4), &rest[e..])
  };
  let port = match port {
    "" | ":" => None,
    p => {
      let d = &p[1..];
      if !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
      }
      let mut n: u64 = 0;
      for c in d.bytes() {
        n = n * 10 + (c - b'0') as u64;
        if n > 65535 {
          return None;
        }
      }
      Some(n as u16)
    }
  };
  Some(Auth { user, host, port })
}
fn read(t: &str) -> Option<Parts> {
  let c = t.find(':')?;
  let s = t[..c].as_bytes();
  let scheme = if s.is_empty() {
    None
  } else if s[0].is_ascii_alphabetic() && s.iter().all(|c| c.is_ascii_alphanumeric() || b"+-.".contains(c)) {
    Some(t[..c].to_string())
  } else {
    return None;
  };
  let rest = &t[c + 1..];
  let (rest, fragment) = match rest.find('#') {
    None => (rest, None),
    Some(i) => (&rest[..i], Some(rest[i + 1..].to_string())),
  };
  let (rest, query) = match rest.find('?') {
    None => (rest, None),
    Some(i) => (&rest[..i], Some(rest[i + 1..].to_string())),
  };
  if fragment.as_ref().map_or(false, |f| !all(f, b":@/?")) || query.as_ref().map_or(false, |q| !all(q, b":@/?")) {
    return None;
  }
  let (auth, path) = if rest.starts_with("//") {
    let r = &rest[2..];
    let e = r.find('/').unwrap_or(r.len());
    (Some(authority(&r[..e])?), r[e..].to_string())
  } else {
    (None, rest.to_string())
  };
  if !all(&path, b":@/") {
    return None;
  }
  Some(Parts { scheme, auth, path, query, fragment })
}
fn segments(path: &str) -> Vec<String> {
  let mut out: Vec<String> = vec![];
  for c in path.chars() {
    if c == '/' || out.is_empty() {
      out.push(c.to_string());
    } else {
      out.last_mut().unwrap().push(c);
    }
  }
  out
}
fn pairs(q: &str) -> Vec<(String, Option<String>)> {
  q.split('&')
    .map(|p| match p.find('=') {
      None => (p.to_string(), None),
      Some(i) => (p[..i].to_string(), Some(p[i + 1..].to_string())),
    })
    .collect()
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
  if got == want {
    Ok(())
  } else {
    Err(format!("{}: got {:?}, expected {:?}", what, got, want))
  }
}

// ---- generating texts
fn chars(r: &mut Rng, n: usize, extra: &[u8]) -> String {
  let mut s = String::new();
  for _ in 0..n {
    match r.below(10) {
      0 => s.push_str(*r.pick(&["%41", "%2f", "%E3", "%00", "%25", "%aA"])),
      1 => s.push(*r.pick(&b"!$&'()*+,;="[..]) as char),
      2 => s.push(*r.pick(&b"-._~"[..]) as char),
      3 if !extra.is_empty() => s.push(*r.pick(extra) as char),
      4 => s.push((b'0' + r.below(10) as u8) as char),
      _ => s.push(*r.pick(&b"abcxyzABZv019"[..]) as char),
    }
  }
  s
}
fn len(r: &mut Rng) -> usize {
  *r.pick(&[0, 1, 1, 2, 3, 5, 9])
}
fn octet_text(r: &mut Rng) -> String {
  match r.below(4) {
    0 => r.pick(&["0", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255", "19", "29", "25"]).to_string(),
    1 if r.chance(30) => r.pick(&["256", "260", "300", "00", "01", "012", "1000", "", "2555", "999"]).to_string(),
    _ => r.below(256).to_string(),
  }
}
fn v4_text(r: &mut Rng) -> String {
  let n = if r.chance(94) { 4 } else { r.below(6) + 1 };
  (0..n).map(|_| octet_text(r)).collect::<Vec<_>>().join(".")
}
fn h16(r: &mut Rng) -> String {
  let n = if r.chance(97) { r.below(4) + 1 } else { 5 };
  (0..n).map(|_| *r.pick(&b"0123456789abcdefABCDEF0f"[..]) as char).collect()
}
fn v6_text(r: &mut Rng) -> String {
  let side = |r: &mut Rng, n: usize| (0..n).map(|_| h16(r)).collect::<Vec<_>>().join(":");
  let mut s = if r.chance(25) {
    let n = if r.chance(80) { 8 } else { r.below(9) };
    side(r, n)
  } else {
    let n = r.below(8);
    let k = r.below(n + 1);
    let (n, k) = if r.chance(5) { (8, r.below(9)) } else { (n, k) };
    format!("{}::{}", side(r, k), side(r, n - k))
  };
  if r.chance(25) {
    if let Some(i) = s.rfind(':') {
      let t = v4_text(r);
      s.truncate(i + 1);
      if r.chance(50) {
        // the address stands for two groups
        if let Some(j) = s[..i].rfind(':') {
          if !s.ends_with("::") && j > 0 && &s[j - 1..j] != ":" {
            s.truncate(j + 1);
          }
        }
      }
      s.push_str(&t);
    }
  }
  s
}
fn host_text(r: &mut Rng) -> String {
  match r.below(10) {
    0 | 1 | 2 => v4_text(r),
    3 | 4 | 5 => format!("[{}]", v6_text(r)),
    6 => {
      let n = r.below(3) + 1;
      let m = r.below(4) + usize::from(r.chance(95));
      let h: String = (0..n).map(|_| *r.pick(&b"0123456789abcdefABCDEF"[..]) as char).collect();
      let t: String = (0..m).map(|_| *r.pick(&b"abz09:-._~!$&'()*+,;="[..]) as char).collect();
      format!("[{}{}.{}]", if r.chance(25) { "V" } else { "v" }, h, t)
    }
    7 => format!("{}{}", v4_text(r), r.pick(&["", ".", "a", ".com", "0", "-", "%41"])),
    8 => String::new(),
    _ => {
      let n = len(r);
      chars(r, n, b"")
    }
  }
}
fn port_text(r: &mut Rng) -> String {
  match r.below(8) {
    0 => ":".into(),
    1 => format!(":{}", r.pick(&["0", "1", "65535", "65536", "65534", "99999", "00080", "080", "000000000000000000000001", "4294967376", "18446744073709551696", "8080"])),
    2 => format!(":{}", r.below(65536)),
    _ => String::new(),
  }
}
fn auth_text(r: &mut Rng) -> String {
  let u = match r.below(5) {
    0 => {
      let n = len(r);
      format!("{}@", chars(r, n, b""))
    }
    1 => {
      let (n, m) = (len(r), len(r));
      format!("{}:{}@", chars(r, n, b""), chars(r, m, b":"))
    }
    _ => String::new(),
  };
  format!("{}{}{}", u, host_text(r), port_text(r))
}
fn path_text(r: &mut Rng) -> String {
  let n = r.below(4);
  (0..n)
    .map(|_| {
      let k = len(r);
      format!("/{}", chars(r, k, b":@"))
    })
    .collect()
}
fn query_text(r: &mut Rng) -> String {
  if r.chance(60) {
    let n = r.below(4) + 1;
    let keys = ["a", "b", "k", "", "x%20y"];
    (0..n)
      .map(|_| {
        let k = if r.chance(60) { r.pick(&keys).to_string() } else { chars(r, 2, b":@/?").replace('=', "-").replace('&', "+") };
        match r.below(4) {
          0 => k,
          1 => format!("{}=", k),
          _ => {
            let m = len(r);
            format!("{}={}", k, chars(r, m, b":@/?=").replace('&', ""))
          }
        }
      })
      .collect::<Vec<_>>()
      .join("&")
  } else {
    let n = len(r);
    chars(r, n, b":@/?")
  }
}
fn uri_text(r: &mut Rng) -> String {
  let scheme = r.pick(&["http", "a", "x1+-.", "", "Z9", "urn", "http", "s"]).to_string();
  let hier = match r.below(6) {
    0 | 1 | 2 => format!("//{}{}", auth_text(r), path_text(r)),
    3 => path_text(r),
    4 => {
      let n = len(r);
      format!("{}{}", chars(r, n, b":@"), path_text(r))
    }
    _ => String::new(),
  };
  let q = if r.chance(40) { format!("?{}", query_text(r)) } else { String::new() };
  let f = if r.chance(30) {
    let n = len(r);
    format!("#{}", chars(r, n, b":@/?"))
  } else {
    String::new()
  };
  format!("{}:{}{}{}", scheme, hier, q, f)
}
fn damage(r: &mut Rng, t: &str) -> String {
  let mut v: Vec<char> = t.chars().collect();
  for _ in 0..r.below(2) + 1 {
    let bad: &[char] = &[' ', '%', '#', '?', '[', ']', '@', ':', '/', '"', '<', '>', '^', '`', '{', '|', '}', '\\', '\n', '\u{7f}', '\u{0}', 'é', '0', 'g', 'G', '.', '=', '&'];
    match r.below(3) {
      0 if !v.is_empty() => {
        let i = r.below(v.len());
        v.remove(i);
      }
      1 if !v.is_empty() => {
        let i = r.below(v.len());
        v[i] = *r.pick(bad);
      }
      _ => {
        let i = r.below(v.len() + 1);
        v.insert(i, *r.pick(bad));
      }
    }
  }
  v.into_iter().collect()
}

// ---- checks
fn host_of(h: &HostName) -> Host {
  match h {
    HostName::RegName(s) => Host::Reg(s.clone()),
    HostName::Ipv4Address(a) => Host::V4(a.octets()),
    HostName::IpLiteral(IpLiteral::Ipv6Address(a)) => Host::V6(a.segments()),
    HostName::IpLiteral(IpLiteral::IpvFuture(s)) => Host::Future(s.clone()),
  }
}
fn parse(t: &str) -> Option<Uri> {
  Uri::parse(t).ok()
}
fn check_auth(u: &Uri, a: &Option<Auth>) -> Result<(), String> {
  match a {
    None => {
      eq("authority", u.authority().map(|a| a.to_string()), None)?;
      eq("host", u.host_name().is_some(), false)?;
      eq("port", u.port(), None)?;
      eq("user information", u.user_info().is_some(), false)
    }
    Some(a) => {
      let ua = u.authority().ok_or("the authority is missing")?;
      eq("host", host_of(ua.host_name()), a.host.clone())?;
      eq("host (shortcut)", u.host_name().map(host_of), Some(a.host.clone()))?;
      eq("port", ua.port(), a.port)?;
      eq("port (shortcut)", u.port(), a.port)?;
      let ui = ua.user_info().map(|i| (i.user_name().to_string(), i.password().map(|s| s.to_string())));
      eq("user information", ui, a.user.clone())?;
      eq("user information (shortcut)", u.user_info().map(|i| (i.user_name().to_string(), i.password().map(|s| s.to_string()))), a.user.clone())
    }
  }
}
fn host_show(h: &Host) -> String {
  match h {
    Host::Reg(s) => s.clone(),
    Host::V4(o) => Ipv4Addr::new(o[0], o[1], o[2], o[3]).to_string(),
    Host::V6(g) => format!("[{}]", Ipv6Addr::new(g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7])),
    Host::Future(s) => format!("[{}]", s),
  }
}
fn show(p: &Parts) -> String {
  let a = p.auth.as_ref().map_or(String::new(), |a| {
    let u = a.user.as_ref().map_or(String::new(), |(n, w)| format!("{}{}@", n, w.as_ref().map_or(String::new(), |w| format!(":{}", w))));
    format!("//{}{}{}", u, host_show(&a.host), a.port.map_or(String::new(), |n| format!(":{}", n)))
  });
  format!(
    "{}:{}{}{}{}",
    p.scheme.clone().unwrap_or_default(),
    a,
    p.path,
    p.query.as_ref().map_or(String::new(), |q| format!("?{}", q)),
    p.fragment.as_ref().map_or(String::new(), |q| format!("#{}", q))
  )
}
fn c15(rep: &mut Report) {
  let mut r = Rng::new(rep.seed);
  // every octet form and the port limits, once per run
  for n in 0..1100u32 {
    for t in [format!("a://{}.0.0.1", n), format!("a://9.9.9.{}", n), format!("a://1.{:02}.{}.1", n % 100, n)] {
      auth_case(rep, t);
    }
  }
  for c in 0..128u8 {
    for t in [format!("a://x{}y", c as char), format!("a://u{}@h", c as char), format!("a://u:{}@h", c as char), format!("a://h:{}", c as char), format!("a://[v1.{}]", c as char), format!("a://[v{}.a]", c as char), format!("a://[{}::]", c as char), format!("a://%{}0", c as char), format!("a://%0{}", c as char)] {
      auth_case(rep, t);
    }
  }
  rep.group("every octet and character");
  while rep.more() {
    let t = format!("{}://{}{}", r.pick(&["a", "http", ""]), auth_text(&mut r), r.pick(&["", "/", "/p", "?q", "#f"]));
    let t = if r.chance(25) { damage(&mut r, &t) } else { t };
    auth_case(rep, t);
    rep.group("authorities");
  }
}
fn auth_case(rep: &mut Report, t: String) {
  let want = read(&t);
  rep.case(format!("{:?}", t), want.is_some(), || {
    let u = parse(&t);
    match (&u, &want) {
      (Some(u), Some(p)) => check_auth(u, &p.auth),
      (None, None) => Ok(()),
      (Some(u), None) => Err(format!("accepted as {:?}, but it is no URI", u)),
      (None, Some(p)) => Err(format!("rejected, but it is {:?}", p)),
    }
  });
}
fn c16(rep: &mut Report) {
  let mut r = Rng::new(rep.seed + 16);
  for c in 0..128u8 {
    for t in [format!("{}:", c as char), format!("a{}:", c as char), format!("a:{}", c as char), format!("a:x{}y", c as char), format!("a:/{}", c as char), format!("a:?{}", c as char), format!("a:?k={}", c as char), format!("a:#{}", c as char), format!("a:#%{}f", c as char), format!("a:?%f{}", c as char), format!("a:/%{}", c as char)] {
      uri_case(rep, t);
    }
  }
  rep.group("every character everywhere");
  while rep.more() {
    let t = uri_text(&mut r);
    let t = if r.chance(35) { damage(&mut r, &t) } else { t };
    uri_case(rep, t);
    rep.group("URIs");
  }
}
fn uri_case(rep: &mut Report, t: String) {
  let want = read(&t);
  rep.case(format!("{:?}", t), want.is_some(), || {
    let u = parse(&t);
    let (u, p) = match (u, &want) {
      (Some(u), Some(p)) => (u, p),
      (None, None) => return Ok(()),
      (Some(u), None) => return Err(format!("accepted as {:?}, but it is no URI", u)),
      (None, Some(p)) => return Err(format!("rejected, but it is {:?}", p)),
    };
    eq("scheme", u.schema().map(|s| s.to_string()), p.scheme.clone())?;
    check_auth(&u, &p.auth)?;
    eq("path", u.path().map_or(String::new(), |x| x.to_string()), p.path.clone())?;
    eq("path parts", u.path().map_or(vec![], |x| x.parts().clone()), segments(&p.path))?;
    eq("query", u.query().map(|q| q.to_string()), p.query.clone())?;
    eq("fragment", u.fragment().cloned(), p.fragment.clone())?;
    eq("is_absolute", u.is_absolute(), p.fragment.is_none())?;
    let s = u.to_string();
    eq("rendering", s.clone(), show(p))?;
    let again = parse(&s).ok_or_else(|| format!("the rendering {:?} is rejected", s))?;
    // an empty port and leading zeros are not kept, so the second reading equals the first
    if again != u {
      return Err(format!("the rendering {:?} reads as {:?}, not as {:?}", s, again, u));
    }
    let plain = read(&t).unwrap() == read(&s).unwrap();
    if !plain {
      return Err(format!("the rendering {:?} means {:?}", s, read(&s)));
    }
    Ok(())
  });
}
fn word(r: &mut Rng) -> String {
  r.pick(&["a", "b", "", "/x", "/", "k", "é", "%20", "key", "="]).to_string()
}
fn c17(rep: &mut Report) {
  let mut r = Rng::new(rep.seed + 17);
  while rep.more() {
    let n = r.below(6);
    let ws: Vec<String> = (0..n).map(|_| word(&mut r)).collect();
    let m = r.below(4);
    let more: Vec<String> = (0..m).map(|_| word(&mut r)).collect();
    let kind = r.below(8);
    rep.case(format!("path kind {} of {:?} plus {:?}", kind, ws, more), !ws.is_empty(), || {
      let strs: Vec<&str> = ws.iter().map(|s| s.as_str()).collect();
      let (mut p, name) = match kind {
        0 => (Path::of_rootless_from_strs(&strs), "rootless_path"),
        1 => (Path::of_rootless_from_strings(&ws), "rootless_path"),
        2 => (Path::of_abempty_from_strs(&strs), "abempty_path"),
        3 => (Path::of_abempty_from_strings(&ws), "abempty_path"),
        4 => (Path::of_absolute_from_strs(&strs), "absolute_path"),
        5 => (Path::of_absolute_from_strings(&ws), "absolute_path"),
        6 => (Path::of_no_scheme_from_strs(&strs), "no_scheme_path"),
        _ => (Path::of_no_scheme_from_strings(&ws), "no_scheme_path"),
      };
      let ok = match (&p, kind / 2) {
        (Path::RootlessPath { .. }, 0) | (Path::AbemptyPath { .. }, 1) | (Path::AbsolutePath { .. }, 2) | (Path::NoSchemePath { .. }, 3) => true,
        _ => false,
      };
      eq("kind", ok, true)?;
      let check = |p: &Path, want: &Vec<String>, name: &str| {
        eq("name", p.type_name(), name)?;
        eq("parts", p.parts(), want)?;
        eq("is_empty", p.is_empty(), want.is_empty())?;
        eq("non_empty", p.non_empty(), !want.is_empty())?;
        eq("text", p.to_string(), want.concat())
      };
      let mut want = ws.clone();
      check(&p, &want, name)?;
      let before = p.clone();
      match kind % 3 {
        0 => p.add_parts(more.clone()),
        1 => p.with_parts(more.clone()),
        _ => more.iter().for_each(|x| p.add_part(x.clone())),
      }
      want.extend(more.clone());
      check(&p, &want, name)?;
      check(&before, &ws, name)?;
      check(&p.to_rootless(), &want, "rootless_path")?;
      check(&p.to_absolute(), &want, "absolute_path")?;
      check(&Path::of_empty(), &vec![], "empty_path")?;
      eq("default", Path::default(), Path::of_empty())?;
      let mut e = Path::of_empty();
      e.add_parts(more.clone());
      check(&e, &vec![], "empty_path")
    });
    rep.group("paths");
    let n = r.below(7);
    let ps: Vec<(String, Option<String>)> = (0..n).map(|_| (word(&mut r), if r.chance(60) { Some(word(&mut r)) } else { None })).collect();
    let add: Vec<(String, Option<String>)> = (0..r.below(3)).map(|_| (word(&mut r), if r.chance(60) { Some(word(&mut r)) } else { None })).collect();
    rep.case(format!("query {:?} plus {:?}", ps, add), !ps.is_empty(), || {
      let strs: Vec<(&str, Option<&str>)> = ps.iter().map(|(k, v)| (k.as_str(), v.as_deref())).collect();
      let mut q = Query::new(ps.clone());
      eq("from text pairs", Query::from(strs), q.clone())?;
      eq("from pairs", Query::from(ps.clone()), q.clone())?;
      let mut want = ps.clone();
      for (k, v) in &add {
        q.add_opt(k.clone(), v.clone());
        if v.is_some() {
          want.push((k.clone(), v.clone()));
        }
        q.add(k.clone(), "w".into());
        want.push((k.clone(), Some("w".into())));
      }
      let text = want.iter().map(|(k, v)| v.as_ref().map_or(k.clone(), |v| format!("{}={}", k, v))).collect::<Vec<_>>().join("&");
      eq("text", q.as_string(), text.clone())?;
      eq("display", q.to_string(), text)?;
      let all = q.params();
      for (k, _) in &want {
        let vals: Vec<&String> = want.iter().filter(|(x, _)| x == k).filter_map(|(_, v)| v.as_ref()).collect();
        eq("values", q.get_param(k.clone()), Some(vals.clone()))?;
        eq("values in params", all.get(k).cloned(), Some(vals))?;
      }
      eq("number of keys", all.len(), want.iter().map(|(k, _)| k).collect::<std::collections::HashSet<_>>().len())?;
      eq("an absent key", q.get_param("not there".into()), None)?;
      let q2 = Query::new(ps.clone());
      eq("order", q.partial_cmp(&q2), q.to_string().partial_cmp(&q2.to_string()))?;
      eq("default", Query::default(), Query::new(vec![]))
    });
    rep.group("queries");
    let (a, b, c) = (word(&mut r), if r.chance(50) { Some(word(&mut r)) } else { None }, word(&mut r));
    let (port, hk, qk, fk, ak, sk) = (if r.chance(50) { Some(r.below(65536) as u16) } else { None }, r.below(4), r.chance(50), r.chance(50), r.chance(60), r.chance(70));
    let (o, g) = ([r.next() as u8, r.next() as u8, 0, r.next() as u8], [r.next() as u16, 0, 0, r.next() as u16, 0, 1, 0xffff, r.next() as u16]);
    rep.case(format!("uri of {:?} {:?} {:?} {:?} {:?} {:?} {:?} {} {} {} {} {}", a, b, c, port, ps, o, g, hk, qk, fk, ak, sk), true, || {
      let host = match hk {
        0 => Host::Reg(c.clone()),
        1 => Host::V4(o),
        2 => Host::V6(g),
        _ => Host::Future(format!("v1.{}", c)),
      };
      let hn = match &host {
        Host::Reg(s) => HostName::RegName(s.clone()),
        Host::V4(o) => HostName::Ipv4Address(Ipv4Addr::from(*o)),
        Host::V6(g) => HostName::IpLiteral(IpLiteral::Ipv6Address(Ipv6Addr::from(*g))),
        Host::Future(s) => HostName::IpLiteral(IpLiteral::IpvFuture(s.clone())),
      };
      let ui = UserInfo::new(a.clone(), b.clone());
      eq("user", ui.user_name(), a.as_str())?;
      eq("password", ui.password(), b.as_deref())?;
      eq("user information from texts", UserInfo::from((a.as_str(), b.as_deref())), ui.clone())?;
      eq("user information text", ui.to_string(), format!("{}{}", a, b.as_ref().map_or(String::new(), |b| format!(":{}", b))))?;
      let with_user = qk || fk;
      let au = Authority::new(hn, port, if with_user { Some(ui) } else { None });
      let path = Path::of_abempty_from_strings(&ws);
      let hp = if ak { HierPart::new(Some(au.clone()), path) } else { HierPart::of_path(path) };
      let auth = Auth { user: if with_user { Some((a.clone(), b.clone())) } else { None }, host, port };
      eq("authority text", format!("//{}", au), show(&Parts { scheme: None, auth: Some(auth.clone()), path: String::new(), query: None, fragment: None })[1..].to_string())?;
      let q = Query::new(ps.clone());
      let parts = Parts {
        scheme: if sk { Some("s".into()) } else { None },
        auth: if ak { Some(auth) } else { None },
        path: ws.concat(),
        query: if qk { Some(q.to_string()) } else { None },
        fragment: if fk { Some(c.clone()) } else { None },
      };
      eq("hierarchical part text", hp.to_string(), show(&Parts { scheme: None, query: None, fragment: None, ..parts.clone() })[1..].to_string())?;
      let u = Uri::new(if sk { Some(Scheme::new("s".into())) } else { None }, Some(hp), if qk { Some(q.clone()) } else { None }, if fk { Some(c.clone()) } else { None });
      eq("scheme", u.schema().map(|s| s.to_string()), parts.scheme.clone())?;
      check_auth(&u, &parts.auth)?;
      eq("path", u.path().map(|p| p.parts().clone()), Some(ws.clone()))?;
      eq("query", u.query(), if qk { Some(&q) } else { None })?;
      eq("fragment", u.fragment(), if fk { Some(&c) } else { None })?;
      eq("text", u.to_string(), show(&parts))?;
      eq("an empty URI", Uri::default().to_string(), ":".to_string())
    });
    rep.group("URIs built directly");
    let qt = query_text(&mut r);
    rep.case(format!("query text {:?}", qt), !qt.is_empty(), || {
      let u = parse(&format!("a:?{}", qt)).ok_or("rejected")?;
      eq("pairs", u.query().cloned(), Some(Query::new(pairs(&qt))))
    });
    rep.group("query texts");
  }
}
fn main() {
  let mut rep = Report::from_args();
  match rep.prop.as_str() {
    "C15" => c15(&mut rep),
    "C16" => c16(&mut rep),
    _ => c17(&mut rep),
  }
  rep.finish();
}
