// Executable contracts of the hocon crate: an independent model of values, histories and merging, and documents written from known values.
#[path = "../../common/mod.rs"]
mod common;
use common::*;
use oni_comb_hocon_rs::model::*;
use rust_decimal::Decimal;
use std::collections::{BTreeMap, HashMap};

const UNITS: [(&[&str], i128); 7] = [
  (&["ns", "nano", "nanos", "nanosecond", "nanoseconds"], 1),
  (&["us", "micro", "micros", "microsecond", "microseconds"], 1_000),
  (&["ms", "milli", "millis", "millisecond", "milliseconds"], 1_000_000),
  (&["s", "second", "seconds"], 1_000_000_000),
  (&["m", "minute", "minutes"], 60_000_000_000),
  (&["h", "hour", "hours"], 3_600_000_000_000),
  (&["d", "day", "days"], 86_400_000_000_000),
];
fn unit(i: usize) -> TimeUnit {
  match i {
    0 => TimeUnit::Nanoseconds,
    1 => TimeUnit::Microseconds,
    2 => TimeUnit::Milliseconds,
    3 => TimeUnit::Seconds,
    4 => TimeUnit::Minutes,
    5 => TimeUnit::Hours,
    _ => TimeUnit::Days,
  }
}

fn parse(s: &str) -> Result<Config, String> {
  ConfigFactory::new().parse_from_string(s).map_err(|e| format!("not read: {:?}", e))
}

// ---- C18
fn boundary(r: &mut Rng) -> i128 {
  let b: i128 = match r.below(13) {
    0 => 0,
    1 => i8::MAX as i128,
    2 => u8::MAX as i128,
    3 => i16::MAX as i128,
    4 => u16::MAX as i128,
    5 => i32::MAX as i128,
    6 => u32::MAX as i128,
    7 => i64::MAX as i128,
    8 => u64::MAX as i128,
    9 => i64::MAX as i128 / 1000,
    10 => u64::MAX as i128 / *r.pick(&[60i128, 3600, 86400, 1000]),
    11 => i64::MAX as i128 / *r.pick(&[60_000i128, 3_600_000, 86_400_000]),
    _ => r.range(0, 10_000) as i128,
  };
  let d = r.range(-3, 3) as i128;
  let b = if r.chance(30) { -b } else { b };
  b + d
}

fn duration_case(n: i128, u: usize, word: &str, blanks: &str, tail: &str) -> Result<(), String> {
  let c = parse(&format!("k = {}{}{}{}", n, blanks, word, tail))?;
  let v = c.get_value("k").ok_or("no value")?;
  let d = v.as_config_duration_value().ok_or_else(|| format!("not a duration: {:?}", v))?;
  let direct = ConfigDurationValue::new(ConfigNumberValue::from(n), unit(u));
  if *d != direct {
    return Err(format!("read as {:?}, expected {:?}", d, direct));
  }
  check_duration(d, n, u)?;
  let fits_std = n >= 0 && n <= u64::MAX as i128 && n * UNITS[u].1 / 1_000_000_000 <= u64::MAX as i128;
  if fits_std && v.as_std_duration().map(|d| d.as_nanos() as i128) != Some(n * UNITS[u].1) {
    return Err("as_std_duration differs".into());
  }
  Ok(())
}

fn check_duration(d: &ConfigDurationValue, n: i128, u: usize) -> Result<(), String> {
  let total = n * UNITS[u].1;
  // std: the number must be an unsigned 64-bit number and the seconds too
  let fits = n >= 0 && n <= u64::MAX as i128 && total / 1_000_000_000 <= u64::MAX as i128;
  match d.to_std_duration() {
    Ok(x) if fits && x.as_nanos() as i128 == total => (),
    Err(_) if !fits => (),
    x => return Err(format!("to_std_duration gives {:?} for {} ns", x.map_err(|e| e.to_string()), total)),
  }
  // chrono: the number must be a signed 64-bit number and the milliseconds at most i64::MAX either way
  let ms = i64::MAX as i128 * 1_000_000;
  let fits = n >= i64::MIN as i128 && n <= i64::MAX as i128 && -ms <= total && total <= ms;
  match d.to_duration() {
    Ok(x) if fits => {
      let got = x.num_seconds() as i128 * 1_000_000_000 + x.subsec_nanos() as i128;
      if got != total {
        return Err(format!("to_duration gives {} ns for {} ns", got, total));
      }
    }
    Err(_) if !fits => (),
    x => return Err(format!("to_duration gives {:?} for {} ns", x.map_err(|e| e.to_string()), total)),
  }
  Ok(())
}

fn ints(x: &ConfigNumberValue, n: i128) -> Result<(), String> {
  macro_rules! chk {
    ($($m:ident $t:ty),*) => { $(
      let want = <$t>::try_from(n).ok();
      if x.$m() != want { return Err(format!("{} of {} is {:?}", stringify!($m), n, x.$m())); }
    )* };
  }
  chk!(to_i128 i128, to_u128 u128, to_i64 i64, to_u64 u64, to_i32 i32, to_u32 u32, to_i16 i16, to_u16 u16, to_i8 i8, to_u8 u8);
  if *x.as_decimal() != Decimal::from(n) {
    return Err(format!("as_decimal of {} is {}", n, x.as_decimal()));
  }
  Ok(())
}

/// a decimal literal and its exact value mantissa / 10^scale (scale may be negative: times a power of ten)
fn literal(r: &mut Rng) -> (String, i128, i64) {
  let neg = r.chance(30);
  let int = match r.below(4) {
    0 => "0".to_string(),
    1 => r.range(1, 9).to_string(),
    2 => r.range(10, 100_000).to_string(),
    _ => r.range(1, 999_999_999_999).to_string(),
  };
  let frac: String = if r.chance(50) { (0..1 + r.below(6)).map(|_| (b'0' + r.below(10) as u8) as char).collect() } else { String::new() };
  let exp = if r.chance(30) { Some(r.range(-6, 6)) } else { None };
  let mut m: i128 = format!("{}{}", int, frac).parse().unwrap();
  if neg {
    m = -m;
  }
  let mut t = format!("{}{}", if neg { "-" } else { "" }, int);
  if !frac.is_empty() {
    t.push('.');
    t.push_str(&frac);
  }
  if let Some(e) = exp {
    t.push(if r.chance(50) { 'e' } else { 'E' });
    if e >= 0 && r.chance(50) {
      t.push('+');
    }
    if e < 0 {
      t.push('-');
    }
    t.push_str(&if r.chance(20) { format!("0{}", e.abs()) } else { e.abs().to_string() });
  }
  (t, m, frac.len() as i64 - exp.unwrap_or(0))
}
fn same_number(d: &Decimal, m: i128, scale: i64) -> bool {
  let (dm, ds) = (d.mantissa(), d.scale() as i64);
  // dm / 10^ds == m / 10^scale
  let top = ds.max(scale);
  let p = |k: i64| 10i128.checked_pow(k as u32);
  match (p(top - ds).and_then(|f| dm.checked_mul(f)), p(top - scale).and_then(|f| m.checked_mul(f))) {
    (Some(a), Some(b)) => a == b,
    _ => false,
  }
}

fn c18(rep: &mut Report) {
  let mut r = Rng::new(rep.seed);
  for (u, (words, _)) in UNITS.iter().enumerate() {
    for w in *words {
      for (n, blanks, tail) in [(1i128, "", ""), (0, " ", "\n"), (7, " \t", " # c"), (12345, "", "\nother = 1"), (3, " ", "\nsecond = 1")] {
        let w = w.to_string();
        rep.case(format!("k = {}{}{}{:?}", n, blanks, w, tail), true, move || duration_case(n, u, &w, blanks, tail));
        rep.group("every unit spelling");
      }
    }
  }
  while rep.more() {
    match r.below(4) {
      0 => {
        let (u, n) = (r.below(7), boundary(&mut r));
        let w = r.pick(UNITS[u].0).to_string();
        let blanks = *r.pick(&["", " ", "  ", "\t"]);
        rep.case(format!("k = {}{}{}", n, blanks, w), true, move || duration_case(n, u, &w, blanks, ""));
        rep.group("durations in a document");
      }
      1 => {
        let (u, n) = (r.below(7), boundary(&mut r));
        rep.case(format!("duration {} x {} ns", n, UNITS[u].1), true, move || {
          let d = ConfigDurationValue::new(ConfigNumberValue::from(n), unit(u));
          check_duration(&d, n, u)?;
          if n >= 0 && n <= u64::MAX as i128 {
            let std = std::time::Duration::from_nanos(n as u64);
            if ConfigDurationValue::from(std).to_std_duration().ok() != Some(std) {
              return Err(format!("{:?} does not come back from a duration value", std));
            }
          }
          if n >= i64::MIN as i128 && n <= i64::MAX as i128 {
            let c = chrono::Duration::nanoseconds(n as i64);
            if ConfigDurationValue::from(c).to_duration().ok() != Some(c) {
              return Err(format!("{:?} does not come back from a duration value", c));
            }
          }
          Ok(())
        });
        rep.group("durations built directly");
      }
      2 => {
        let n = boundary(&mut r);
        rep.case(format!("number {}", n), true, move || {
          ints(&ConfigNumberValue::from(n), n)?;
          ints(&ConfigNumberValue::new(Decimal::from(n)), n)?;
          macro_rules! from { ($($t:ty),*) => { $( if let Ok(x) = <$t>::try_from(n) { ints(&ConfigNumberValue::from(x), n)?; } )* }; }
          from!(u128, i64, u64, i32, u32, i16, u16, i8, u8, usize);
          ints(&ConfigNumberValue::from(n.to_string()), n)?;
          let c = parse(&format!("k = {}", n))?;
          ints(c.get_value("k").and_then(|v| v.as_config_number_value()).ok_or("not a number")?, n)
        });
        rep.group("whole numbers");
      }
      _ => {
        let (t, m, s) = literal(&mut r);
        rep.case(format!("k = {}", t), true, move || {
          let c = parse(&format!("k = {}", t))?;
          let v = c.get_value("k").ok_or("no value")?;
          let d = v.as_number().ok_or_else(|| format!("not a number: {:?}", v))?;
          if same_number(d, m, s) {
            Ok(())
          } else {
            Err(format!("{} is read as {}", t, d))
          }
        });
        rep.group("decimal literals");
      }
    }
  }
}

// ---- C19: values as a model: a value is a history of plain values, the last being the current one
#[derive(Debug, Clone, PartialEq)]
enum M {
  Null,
  Bool(bool),
  Num(i64),
  Str(String),
  Arr(Vec<Vec<M>>),
  Obj(BTreeMap<String, Vec<M>>),
}
fn leaf(r: &mut Rng) -> M {
  match r.below(4) {
    0 => M::Null,
    1 => M::Bool(r.chance(50)),
    2 => M::Num(r.range(0, 99)),
    _ => M::Str(format!("s{}", r.below(50))),
  }
}
fn plain(r: &mut Rng, depth: usize) -> M {
  if depth == 0 || r.chance(35) {
    return leaf(r);
  }
  if r.chance(30) {
    let n = r.below(3);
    return M::Arr((0..n).map(|_| hist(r, depth - 1)).collect());
  }
  let n = r.below(4);
  M::Obj((0..n).map(|_| ((*r.pick(&["a", "b", "c", "d", "e-f", "g_H"])).to_string(), hist(r, depth - 1))).collect())
}
fn hist(r: &mut Rng, depth: usize) -> Vec<M> {
  let n = if r.chance(70) { 1 } else { 1 + r.below(4) };
  (0..n).map(|_| plain(r, depth)).collect()
}
fn build1(m: &M) -> ConfigValue {
  match m {
    M::Null => ConfigValue::Null,
    M::Bool(b) => ConfigValue::Bool(*b),
    M::Num(n) => ConfigValue::Number(ConfigNumberValue::from(*n)),
    M::Str(s) => ConfigValue::String(s.clone()),
    M::Arr(v) => ConfigValue::Array(ConfigArrayValue::new(v.iter().map(|h| build(h)).collect())),
    M::Obj(o) => ConfigValue::Object(ConfigObjectValue::new(o.iter().map(|(k, h)| (k.clone(), build(h))).collect())),
  }
}
fn build(h: &[M]) -> ConfigValue {
  let mut v = build1(&h[0]);
  for m in &h[1..] {
    v.push(build1(m));
  }
  v
}
/// does the value show exactly this history
fn shows(v: &ConfigValue, h: &[M]) -> Result<(), String> {
  let all = v.to_vec();
  if all.len() != h.len() {
    return Err(format!("history of {} values, expected {:?}", all.len(), h));
  }
  for (x, m) in all.iter().zip(h) {
    shows1(x, m)?;
  }
  shows1(v.latest(), h.last().unwrap())?;
  let before = if h.len() > 1 { &h[h.len() - 2] } else { &h[0] };
  shows1(v.prev_latest(), before)
}
fn shows1(x: &ConfigValue, m: &M) -> Result<(), String> {
  let ok = match m {
    M::Null => x.is_null() && x.as_bool().is_none(),
    M::Bool(b) => x.as_bool() == Some(*b) && x.as_string().is_none(),
    M::Num(n) => x.as_config_number_value().and_then(|n| n.to_i64()) == Some(*n) && x.as_bool().is_none() && !x.is_null(),
    M::Str(s) => x.as_string() == Some(s.as_str()) && x.as_number().is_none(),
    M::Arr(v) => {
      let a = x.as_array().ok_or_else(|| format!("not an array: {:?}", x))?;
      if a.len() != v.len() {
        return Err(format!("array {:?}, expected {:?}", a, v));
      }
      for (x, h) in a.iter().zip(v) {
        shows(x, h)?;
      }
      true
    }
    M::Obj(o) => {
      let a = x.as_object().ok_or_else(|| format!("not an object: {:?}", x))?;
      if a.len() != o.len() {
        return Err(format!("object {:?}, expected {:?}", a, o));
      }
      for (k, h) in o {
        if !x.contains(k) {
          return Err(format!("contains({}) is false", k));
        }
        shows(a.get(k).ok_or_else(|| format!("no key {}", k))?, h)?;
      }
      !x.contains("zz")
    }
  };
  if ok {
    Ok(())
  } else {
    Err(format!("{:?}, expected {:?}", x, m))
  }
}
fn merge1(l: &mut M, r: M) -> Option<M> {
  match (l, r) {
    (M::Obj(l), M::Obj(r)) => {
      for (k, h) in r {
        match l.get_mut(&k) {
          None => {
            l.insert(k, h);
          }
          Some(x) => merge(x, h),
        }
      }
      None
    }
    (M::Arr(l), M::Arr(r)) => {
      l.extend(r);
      None
    }
    (_, r) => Some(r),
  }
}
/// merges the values of r, oldest first, into the history l: a container merged into a container becomes the new latest value
fn merge(l: &mut Vec<M>, r: Vec<M>) {
  for x in r {
    if l.len() == 1 {
      if let Some(x) = merge1(&mut l[0], x) {
        l.push(x);
      }
    } else {
      let mut cur = l.last().unwrap().clone();
      let y = merge1(&mut cur, x);
      l.push(y.unwrap_or(cur));
    }
  }
}
fn model_get<'a>(h: &'a [M], path: &[&str]) -> Option<&'a [M]> {
  match h.last().unwrap() {
    M::Obj(o) => {
      let x = o.get(path[0])?;
      if path.len() == 1 {
        Some(x)
      } else {
        model_get(x, &path[1..])
      }
    }
    _ => None,
  }
}
fn some_path(r: &mut Rng) -> Vec<&'static str> {
  (0..1 + r.below(3)).map(|_| *r.pick(&["a", "b", "c", "d", "e-f", "g_H"])).collect()
}
fn paths_of(m: &M, pre: &str, out: &mut Vec<String>) {
  if let M::Obj(o) = m {
    for (k, h) in o {
      let p = if pre.is_empty() { k.clone() } else { format!("{}.{}", pre, k) };
      out.push(p.clone());
      paths_of(h.last().unwrap(), &p, out);
    }
  }
}
fn check_paths(v: &ConfigValue, m: &M, extra: &[Vec<&str>]) -> Result<(), String> {
  let mut ps = vec![];
  paths_of(m, "", &mut ps);
  for p in extra {
    ps.push(p.join("."));
  }
  for p in ps {
    let want = model_get(std::slice::from_ref(m), &p.split('.').collect::<Vec<_>>());
    if v.has_path(&p) != want.is_some() {
      return Err(format!("has_path({}) is {}", p, v.has_path(&p)));
    }
    match (v.get_value(&p), want) {
      (None, None) => (),
      (Some(x), Some(h)) => shows1(x, h.last().unwrap()).map_err(|e| format!("get_value({}) is {}", p, e))?,
      (x, w) => return Err(format!("get_value({}) is {:?}, expected {:?}", p, x, w)),
    }
  }
  Ok(())
}

fn c19(rep: &mut Report) {
  let mut r = Rng::new(rep.seed);
  while rep.more() {
    match r.below(5) {
      0 => {
        let h: Vec<M> = (0..1 + r.below(6)).map(|_| plain(&mut r, 2)).collect();
        rep.case(format!("push {:?}", h), h.len() > 1, move || shows(&build(&h), &h));
        rep.group("histories");
      }
      1 => {
        let (l, x) = (hist(&mut r, 3), hist(&mut r, 3));
        rep.case(format!("merge {:?} with {:?}", l, x), true, move || {
          let mut v = build(&l);
          v.merge_with(build(&x));
          let mut want = l.clone();
          merge(&mut want, x.clone());
          shows(&v, &want)
        });
        rep.group("merges");
      }
      2 => {
        let (l, x) = (hist(&mut r, 2), hist(&mut r, 2));
        rep.case(format!("combine {:?} with {:?}", l, x), x.len() > 1, move || {
          let mut v = build(&l);
          v.combine(&build(&x));
          let mut want = l.clone();
          if x.len() > 1 {
            want.extend(x.clone());
          }
          shows(&v, &want)
        });
        rep.group("combinations");
      }
      3 => {
        let (m, n) = (plain(&mut r, 4), 3);
        let extra: Vec<Vec<&str>> = (0..n).map(|_| some_path(&mut r)).collect();
        rep.case(format!("paths of {:?} and {:?}", m, extra), matches!(m, M::Obj(_)), move || check_paths(&build1(&m), &m, &extra));
        rep.group("paths");
      }
      _ => {
        // a document: objects given several times at the top level are merged, keys repeated inside braces are pushed
        let n = 1 + r.below(4);
        let mut entries: Vec<(String, M)> = vec![];
        for _ in 0..n {
          let k = (*r.pick(&["a", "b", "c"])).to_string();
          let m = doc_value(&mut r, 2);
          entries.push((k, m));
        }
        let mut text = String::new();
        let mut want: BTreeMap<String, Vec<M>> = BTreeMap::new();
        for (k, m) in &entries {
          text.push_str(&format!("{} = {}\n", k, write(m)));
          match want.get_mut(k) {
            None => {
              want.insert(k.clone(), vec![m.clone()]);
            }
            Some(h) => merge(h, vec![m.clone()]),
          }
        }
        let m = M::Obj(want);
        rep.case(text.clone(), true, move || {
          let c = parse(&text)?;
          shows1(c.to_config_value(), &m)?;
          check_paths(c.to_config_value(), &m, &[])?;
          let mut ps = vec![];
          paths_of(&m, "", &mut ps);
          for p in ps {
            if c.get_value(&p) != c.to_config_value().get_value(&p) || !c.has_path(&p) {
              return Err(format!("the configuration and its value differ at {}", p));
            }
          }
          Ok(())
        });
        rep.group("documents with repeated keys");
      }
    }
  }
}
fn doc_value(r: &mut Rng, depth: usize) -> M {
  if depth == 0 || r.chance(40) {
    return leaf(r);
  }
  if r.chance(25) {
    let n = r.below(3);
    return M::Arr((0..n).map(|_| vec![doc_value(r, depth - 1)]).collect());
  }
  let mut o: BTreeMap<String, Vec<M>> = BTreeMap::new();
  for _ in 0..1 + r.below(3) {
    let v = doc_value(r, depth - 1);
    o.entry((*r.pick(&["a", "b", "c", "d"])).to_string()).or_default().push(v);
  }
  M::Obj(o)
}
fn write(m: &M) -> String {
  match m {
    M::Null => "null".into(),
    M::Bool(b) => b.to_string(),
    M::Num(n) => n.to_string(),
    M::Str(s) => format!("\"{}\"", s),
    M::Arr(v) => format!("[{}]", v.iter().map(|h| write(&h[0])).collect::<Vec<_>>().join(", ")),
    M::Obj(o) => {
      let mut t = String::from("{ ");
      for (k, h) in o {
        for m in h {
          t.push_str(&format!("{} = {}, ", k, write(m)));
        }
      }
      format!("{} }}", t.trim_end_matches(", "))
    }
  }
}

// ---- C20: documents
#[derive(Debug, Clone, PartialEq)]
enum V {
  Null,
  Bool(bool),
  Num(i128, i64),
  Dur(i128, usize),
  Str(String),
  Arr(Vec<V>),
  Obj(Vec<(String, V)>),
}
fn gap(r: &mut Rng) -> &'static str {
  *r.pick(&["", "", " ", "  ", "\t"])
}
fn wide(r: &mut Rng) -> String {
  let mut s = String::new();
  for _ in 0..r.below(4) {
    if r.chance(25) {
      s.push_str(&comment(r));
      continue;
    }
    s.push_str(*r.pick(&["", " ", "\n", "\t", "\r\n", "\n\n", "#\n", "//\n"]));
  }
  s
}
/// a comment of any characters, up to the end of its line
fn comment(r: &mut Rng) -> String {
  let mut s = String::from(*r.pick(&["#", "//"]));
  for _ in 0..r.below(8) {
    s.push(*r.pick(&['a', '1', ' ', '\t', ';', ',', '.', '{', '}', '[', ']', '=', ':', '"', '\'', '#', '/', '$', '\\', '*', '+', '-', '?', '(', '\u{b}', '\u{e9}', '\u{3042}', '\u{2028}']));
  }
  s.push_str(*r.pick(&["\n", "\n", "\r\n", "\r"]));
  s
}
/// something that ends an entry: at least one newline
fn eol(r: &mut Rng) -> String {
  if r.chance(30) {
    return format!("{}{}{}", gap(r), comment(r), wide(r));
  }
  format!("{}{}{}", gap(r), *r.pick(&["\n", "\r\n", "\n\n \n"]), wide(r))
}
fn quoted(r: &mut Rng, s: &str) -> String {
  let q = if s.contains('\'') || r.chance(75) { '"' } else { '\'' };
  let mut t = String::from(q);
  for c in s.chars() {
    match c {
      '"' if q == '"' => t.push_str("\\\""),
      '\\' => t.push_str("\\\\"),
      '\n' => t.push_str("\\n"),
      '\r' => t.push_str("\\r"),
      '\u{8}' => t.push_str("\\b"),
      '\u{c}' => t.push_str("\\f"),
      '\t' if r.chance(50) => t.push_str("\\t"),
      '/' if r.chance(30) => t.push_str("\\/"),
      c if r.chance(10) || (c as u32) < 32 && c != '\t' => {
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
          t.push_str(&format!("\\u{:04x}", u));
        }
      }
      c => t.push(c),
    }
  }
  t.push(q);
  t
}
const CHARS: [char; 40] = [
  'a', 'b', 'z', 'Q', '0', '9', ' ', ' ', '#', '/', '{', '}', '[', ']', '=', ':', ',', '.', '$', '\'', '"', '\\', '\n', '\r', '\t', '\u{8}', '\u{c}', '-', '_', '+', '\u{e9}',
  '\u{3042}', '\u{1f600}', '~', '?', '*', '\u{1}', '\u{7f}', '(', ';',
];
fn text(r: &mut Rng) -> String {
  let n = r.below(8);
  (0..n).map(|_| *r.pick(&CHARS)).collect()
}
fn name(r: &mut Rng) -> String {
  let n = 1 + r.below(5);
  let s: String = (0..n).map(|_| *r.pick(&['a', 'b', 's', 'd', 'm', 'h', 'n', 'u', 'K', 'Z', '-', '_', 't'])).collect();
  if s.starts_with("include") {
    "x".into()
  } else {
    s
  }
}
fn value(r: &mut Rng, depth: usize) -> V {
  match r.below(if depth == 0 { 6 } else { 10 }) {
    0 => V::Null,
    1 => V::Bool(r.chance(50)),
    2 => {
      let (_, m, s) = literal(r);
      V::Num(m, s)
    }
    3 => V::Dur(r.range(0, 100_000) as i128, r.below(7)),
    4 if r.chance(30) => V::Str(format!("word{}", *r.pick(&["", " two", "-x_1.5", " = y", ":80/a", "s: 1 d"]))),
    4 | 5 => V::Str(text(r)),
    6 | 7 => {
      let n = r.below(4);
      V::Arr((0..n).map(|_| value(r, depth - 1)).collect())
    }
    _ => {
      let n = r.below(4);
      V::Obj(keys(r, n).into_iter().map(|k| (k, value(r, depth - 1))).collect())
    }
  }
}
fn keys(r: &mut Rng, n: usize) -> Vec<String> {
  let mut ks: Vec<String> = vec![];
  while ks.len() < n {
    let k = name(r);
    if !ks.contains(&k) {
      ks.push(k);
    }
  }
  ks
}
fn num_text(r: &mut Rng, m: i128, scale: i64) -> String {
  // digits with the point moved, or an exponent
  let neg = m < 0;
  let d = m.abs().to_string();
  let s = if scale <= 0 && r.chance(50) && m != 0 {
    format!("{}{}", d, "0".repeat((-scale) as usize))
  } else if scale > 0 && r.chance(60) {
    let pad = if d.len() as i64 <= scale { "0".repeat((scale + 1 - d.len() as i64) as usize) } else { String::new() };
    let d = format!("{}{}", pad, d);
    let at = d.len() - scale as usize;
    format!("{}.{}", &d[..at], &d[at..])
  } else if scale == 0 {
    d
  } else {
    format!("{}{}{}{}", d, if r.chance(50) { "e" } else { "E" }, if scale > 0 { "-" } else { *r.pick(&["", "+"]) }, scale.abs())
  };
  format!("{}{}", if neg { "-" } else { "" }, s)
}
fn show(r: &mut Rng, v: &V) -> String {
  match v {
    V::Null => "null".into(),
    V::Bool(b) => b.to_string(),
    V::Num(m, s) => num_text(r, *m, *s),
    V::Dur(n, u) => format!("{}{}{}", n, *r.pick(&["", " ", "\t "]), r.pick(UNITS[*u].0)),
    V::Str(s) => quoted(r, s),
    V::Arr(vs) => {
      let mut t = format!("[{}", wide(r));
      for (i, v) in vs.iter().enumerate() {
        if i > 0 {
          t.push_str(&format!("{},{}", wide(r), wide(r)));
        }
        t.push_str(&show(r, v));
      }
      format!("{}{}]", t, wide(r))
    }
    V::Obj(ps) => {
      let mut t = format!("{{{}", wide(r));
      for (i, (k, v)) in ps.iter().enumerate() {
        if i > 0 {
          let sep = if r.chance(50) { format!("{},{}", wide(r), wide(r)) } else { eol(r) };
          t.push_str(&sep);
        }
        t.push_str(&entry(r, k, v));
      }
      format!("{}{}}}", t, wide(r))
    }
  }
}
fn entry(r: &mut Rng, k: &str, v: &V) -> String {
  let k = if r.chance(15) { quoted(r, k) } else { k.to_string() };
  let body = show(r, v);
  if matches!(v, V::Obj(_) | V::Arr(_)) && r.chance(50) {
    return format!("{}{}{}", k, gap(r), body);
  }
  format!("{}{}{}{}{}", k, gap(r), if r.chance(70) { "=" } else { ":" }, wide(r), body)
}
/// a document for a top-level object; some objects with a single entry are written as dotted keys
fn document(r: &mut Rng, ps: &[(String, V)]) -> String {
  if ps.is_empty() {
    return format!("{}{}", wide(r), *r.pick(&["{}", ""]));
  }
  if r.chance(15) {
    return format!("{}{}{}", wide(r), show(r, &V::Obj(ps.to_vec())), wide(r));
  }
  let mut t = wide(r);
  let mut bare = false;
  for (i, (k, v)) in ps.iter().enumerate() {
    if i > 0 {
      let e = eol(r);
      t.push_str(&if bare { format!("\n{}", e) } else { e });
    }
    // text without quotes runs to the end of its line
    bare = matches!(v, V::Str(s) if s.starts_with("word"));
    if bare {
      if let V::Str(s) = v {
        t.push_str(&format!("{}{}={}{}", k, gap(r), gap(r), s));
        continue;
      }
    }
    // dotted form
    let (mut k, mut v) = (k.clone(), v);
    while let V::Obj(q) = v {
      if q.len() == 1 && r.chance(60) {
        k = format!("{}.{}", k, q[0].0);
        v = &q[0].1;
      } else {
        break;
      }
    }
    if k.contains('.') {
      t.push_str(&format!("{}{}={}{}", k, gap(r), gap(r), show(r, v)));
    } else {
      t.push_str(&entry(r, &k, v));
    }
  }
  format!("{}{}", t, if bare { "\n".to_string() } else if r.chance(70) { eol(r) } else { String::new() })
}
fn same(x: &ConfigValue, v: &V) -> Result<(), String> {
  let kinds = [x.is_null(), x.as_bool().is_some(), x.as_number().is_some(), x.as_config_duration_value().is_some(), x.as_string().is_some(), x.as_array().is_some(), x.as_object().is_some()];
  let k = match v {
    V::Null => 0,
    V::Bool(_) => 1,
    V::Num(..) => 2,
    V::Dur(..) => 3,
    V::Str(_) => 4,
    V::Arr(_) => 5,
    V::Obj(_) => 6,
  };
  if (0..7).any(|i| kinds[i] != (i == k)) {
    return Err(format!("read as {:?}, expected {:?}", x, v));
  }
  let ok = match v {
    V::Null => true,
    V::Bool(b) => x.as_bool() == Some(*b),
    V::Num(m, s) => same_number(x.as_number().unwrap(), *m, *s),
    V::Dur(n, u) => *x.as_config_duration_value().unwrap() == ConfigDurationValue::new(ConfigNumberValue::from(*n), unit(*u)),
    V::Str(s) => x.as_string() == Some(s.as_str()),
    V::Arr(vs) => {
      let a = x.as_array().unwrap();
      if a.len() != vs.len() {
        return Err(format!("array of {} items {:?}, expected {:?}", a.len(), a, v));
      }
      for (x, v) in a.iter().zip(vs) {
        same(x, v)?;
      }
      true
    }
    V::Obj(ps) => {
      let o = x.as_object().unwrap();
      if o.len() != ps.len() {
        return Err(format!("object {:?}, expected {:?}", o, v));
      }
      for (k, v) in ps {
        same(o.get(k).ok_or_else(|| format!("no key {}", k))?, v)?;
        same(x.get_value(k).ok_or_else(|| format!("get_value({}) is none", k))?, v)?;
      }
      true
    }
  };
  if ok {
    Ok(())
  } else {
    Err(format!("read as {:?}, expected {:?}", x, v))
  }
}
fn walk(c: &Config, pre: &str, v: &V) -> Result<(), String> {
  if let V::Obj(ps) = v {
    for (k, v) in ps {
      let p = if pre.is_empty() { k.clone() } else { format!("{}.{}", pre, k) };
      if !c.has_path(&p) {
        return Err(format!("has_path({}) is false", p));
      }
      same(c.get_value(&p).ok_or_else(|| format!("get_value({}) is none", p))?, v).map_err(|e| format!("{}: {}", p, e))?;
      walk(c, &p, v)?;
    }
    let p = if pre.is_empty() { "qqq".to_string() } else { format!("{}.qqq", pre) };
    if c.has_path(&p) || c.get_value(&p).is_some() {
      return Err(format!("{} should be absent", p));
    }
  }
  Ok(())
}

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

fn c20(rep: &mut Report) {
  let mut r = Rng::new(rep.seed);
  let dir = std::env::temp_dir().join(format!("vx_hocon_{}", std::process::id()));
  std::fs::create_dir_all(&dir).unwrap();
  let scratch = Scratch(dir.clone());
  // files
  for (name, bytes) in [("missing", None), ("utf8", Some(vec![b'a', b'=', 0xff, 0xfe])), ("good", Some(b"a = 1\nb = \"x\"".to_vec())), ("bad", Some(b"a = [1, ".to_vec()))] {
    let f = dir.join(name);
    if let Some(b) = &bytes {
      std::fs::write(&f, b).unwrap();
    }
    rep.case(format!("file {}", name), true, || {
      let res = ConfigFactory::new().load_from_file(f.to_str().unwrap());
      match (name, res) {
        ("missing", Err(ConfigError::FileNotFoundError)) => Ok(()),
        ("utf8", Err(ConfigError::FileReadError)) => Ok(()),
        ("bad", Err(ConfigError::ParseError(_))) => Ok(()),
        ("good", Ok(c)) if c.get_value("b").and_then(|v| v.as_string()) == Some("x") => Ok(()),
        (n, r) => Err(format!("{} gives {:?}", n, r.map(|c| c.to_string()))),
      }
    });
    rep.group("files");
  }
  rep.case("directory".into(), true, || if ConfigFactory::new().load_from_file(dir.to_str().unwrap()).is_err() { Ok(()) } else { Err("a directory is read".into()) });
  let mut i = 0u64;
  while rep.more() {
    i += 1;
    let n = r.below(5);
    let top: Vec<(String, V)> = keys(&mut r, n).into_iter().map(|k| (k, value(&mut r, 3))).collect();
    let t = document(&mut r, &top);
    match r.below(5) {
      0..=2 => {
        let v = V::Obj(top);
        let file = if i % 50 == 0 { Some(dir.join("doc")) } else { None };
        rep.case(t.clone(), n > 0, move || {
          let c = match file {
            Some(f) => {
              std::fs::write(&f, &t).unwrap();
              ConfigFactory::new().load_from_file(f.to_str().unwrap()).map_err(|e| format!("{:?}", e))?
            }
            None => parse(&t)?,
          };
          same(c.to_config_value(), &v)?;
          walk(&c, "", &v)
        });
        rep.group("documents");
      }
      3 => {
        // an array document
        let n = r.below(4);
        let vs: Vec<V> = (0..n).map(|_| value(&mut r, 2)).collect();
        let v = V::Arr(vs);
        let t = format!("{}{}{}", wide(&mut r), show(&mut r, &v), wide(&mut r));
        rep.case(t.clone(), n > 0, move || same(parse(&t)?.to_config_value(), &v));
        rep.group("array documents");
      }
      _ => {
        // damaged text: an answer or an error, never a panic
        let mut cs: Vec<char> = t.chars().take(160).collect();
        for _ in 0..1 + r.below(4) {
          let at = r.below(cs.len() + 1);
          match r.below(3) {
            0 if at < cs.len() => {
              cs.remove(at);
            }
            1 if at < cs.len() => cs[at] = *r.pick(&CHARS),
            _ => cs.insert(at, *r.pick(&CHARS)),
          }
        }
        let t: String = cs.into_iter().collect();
        if t.contains("${") || t.contains("include") {
          continue;
        }
        rep.case(format!("damaged {:?}", t), true, move || {
          let _ = parse(&t);
          Ok(())
        });
        rep.group("damaged documents");
      }
    }
  }
  drop(scratch);
}

// ---- C22: substitutions
fn c22(rep: &mut Report) {
  let mut r = Rng::new(rep.seed);
  let mut envs: HashMap<String, String> = HashMap::new();
  for i in 0..4 {
    let (k, v) = (format!("VX_HOCON_{}", ["A", "B", "C", "D"][i]), format!("env{}", i));
    std::env::set_var(&k, &v);
    envs.insert(k, v);
  }
  while rep.more() {
    // definitions: paths with plain values; then keys whose value is a substitution
    let n = 1 + r.below(4);
    let defs: Vec<(String, M)> = keys(&mut r, n).into_iter().map(|k| (format!("p{}", k), doc_value(&mut r, 2))).collect();
    let mut want: BTreeMap<String, M> = BTreeMap::new();
    let mut lines: Vec<String> = vec![];
    let mut ps = vec![];
    for (k, m) in &defs {
      lines.push(format!("{} = {}", k, write(m)));
      ps.push(k.clone());
      paths_of(m, k, &mut ps);
    }
    let all = M::Obj(defs.iter().map(|(k, m)| (k.clone(), vec![m.clone()])).collect());
    let mut refs: Vec<(String, M)> = vec![];
    for j in 0..1 + r.below(4) {
      let opt = r.chance(50);
      let key = format!("q{}", ["A", "B", "C", "D"][j]);
      let prevs: Vec<M> = (0..r.below(4)).map(|_| leaf(&mut r)).collect();
      let (path, found): (String, Option<M>) = match r.below(if opt { 5 } else { 4 }) {
        0 if !refs.is_empty() => {
          let (k, m) = r.pick(&refs).clone();
          (k, Some(m))
        }
        0..=2 => {
          let p = r.pick(&ps).clone();
          let m = model_get(std::slice::from_ref(&all), &p.split('.').collect::<Vec<_>>()).unwrap().last().unwrap().clone();
          (p, Some(m))
        }
        3 => {
          let k = (*r.pick(&["VX_HOCON_A", "VX_HOCON_B", "VX_HOCON_C", "VX_HOCON_D"])).to_string();
          let v = envs[&k].clone();
          (k, Some(M::Str(v)))
        }
        _ => ("zz.none".into(), None),
      };
      let val = match &found {
        Some(m) => m.clone(),
        None => prevs.last().cloned().unwrap_or(M::Null),
      };
      let reference = format!("${{{}{}{}{}}}", gap(&mut r), if opt { "?" } else { "" }, path, gap(&mut r));
      match r.below(4) {
        // inside an array
        0 => {
          if found.is_none() {
            continue;
          }
          lines.push(format!("{} = [1, {}]", key, reference));
          let m = M::Arr(vec![vec![M::Num(1)], vec![val]]);
          refs.push((key.clone(), m.clone()));
          want.insert(key, m);
        }
        // inside an object, with earlier values of the same key
        1 => {
          let mut t = format!("{} {{ ", key);
          for p in &prevs {
            t.push_str(&format!("inner = {}, ", write(p)));
          }
          lines.push(format!("{}inner = {} }}", t, reference));
          refs.push((format!("{}.inner", key), val.clone()));
          if prevs.is_empty() {
            refs.push((key.clone(), M::Obj([("inner".to_string(), vec![val.clone()])].into_iter().collect())));
          }
          want.insert(format!("{}.inner", key), val);
        }
        _ => {
          let mut t = String::new();
          for p in &prevs {
            t.push_str(&format!("{} = {}\n", key, write(p)));
          }
          lines.push(format!("{}{} = {}", t, key, reference));
          refs.push((key.clone(), val.clone()));
          want.insert(key, val);
        }
      }
    }
    // entries of different keys may stand in any order
    for i in (1..lines.len()).rev() {
      lines.swap(i, r.below(i + 1));
    }
    let t = lines.join("\n");
    rep.case(t.clone(), !want.is_empty(), move || {
      let c = parse(&t)?;
      for (p, m) in &want {
        let v = c.get_value(p).ok_or_else(|| format!("{} is absent", p))?;
        current(v, m).map_err(|e| format!("{}: {}", p, e))?;
      }
      for (k, m) in &defs {
        current(c.get_value(k).ok_or_else(|| format!("{} is absent", k))?, m).map_err(|e| format!("{}: {}", k, e))?;
      }
      Ok(())
    });
    rep.group("documents with substitutions");
  }
}
/// the current values (ignoring histories) are those of the model
fn current(x: &ConfigValue, m: &M) -> Result<(), String> {
  let x = x.latest();
  match m {
    M::Arr(v) => {
      let a = x.as_array().ok_or_else(|| format!("{:?}, expected {:?}", x, m))?;
      if a.len() != v.len() {
        return Err(format!("{:?}, expected {:?}", x, m));
      }
      a.iter().zip(v).try_for_each(|(x, h)| current(x, h.last().unwrap()))
    }
    M::Obj(o) => {
      let a = x.as_object().ok_or_else(|| format!("{:?}, expected {:?}", x, m))?;
      if a.len() != o.len() {
        return Err(format!("{:?}, expected {:?}", x, m));
      }
      o.iter().try_for_each(|(k, h)| current(a.get(k).ok_or_else(|| format!("no key {}", k))?, h.last().unwrap()))
    }
    m => shows1(x, m),
  }
}

fn main() {
  let mut rep = Report::from_args();
  match rep.prop.as_str() {
    "C18" => c18(&mut rep),
    "C19" => c19(&mut rep),
    "C20" => c20(&mut rep),
    "C22" => c22(&mut rep),
    p => panic!("no harness for {}", p),
  }
  rep.finish();
}
