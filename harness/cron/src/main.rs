// Executable contracts of the cron crate: an independent calendar, an independent reading of cron text, and a brute-force schedule.
#[path = "../../common/mod.rs"]
mod common;
use chrono::{DateTime, Datelike, FixedOffset, TimeZone, Timelike, Utc};
use common::*;
use intervals_rs::LimitValue;
use oni_comb_crond_rs::*;

// ---- an independent calendar (days from civil)
fn leap(y: i64) -> bool {
  y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn dim(y: i64, m: i64) -> i64 {
  match m {
    2 => if leap(y) { 29 } else { 28 },
    4 | 6 | 9 | 11 => 30,
    _ => 31,
  }
}
/// days since 1970-01-01
fn days(y: i64, m: i64, d: i64) -> i64 {
  let y2 = if m <= 2 { y - 1 } else { y };
  let era = y2.div_euclid(400);
  let yoe = y2 - era * 400;
  let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
  era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn civil(z: i64) -> (i64, i64, i64) {
  let z = z + 719468;
  let era = z.div_euclid(146097);
  let doe = z - era * 146097;
  let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  let mp = (5 * doy + 2) / 153;
  let d = doy - (153 * mp + 2) / 5 + 1;
  let m = if mp < 10 { mp + 3 } else { mp - 9 };
  (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
/// fields of a local time given in seconds since 1970 local: min, hour, day, month, day of week (1 = Sunday), and the last day of the month
#[derive(Debug, Clone, Copy)]
struct F {
  min: i64,
  hour: i64,
  day: i64,
  month: i64,
  dow: i64,
  last: i64,
}
fn fields(local: i64) -> F {
  let z = local.div_euclid(86400);
  let s = local.rem_euclid(86400);
  let (y, m, d) = civil(z);
  F { min: s / 60 % 60, hour: s / 3600, day: d, month: m, dow: (z + 4).rem_euclid(7) + 1, last: dim(y, m) }
}

// ---- field expressions
#[derive(Debug, Clone, PartialEq)]
enum E {
  Any,
  Last,
  V(u8),
  R(Box<E>, Box<E>, Option<Box<E>>),
  Per(Box<E>),
  List(Vec<E>),
}
fn holds(e: &E, now: i64, max: i64) -> bool {
  match e {
    E::Any => true,
    E::Last => now == max,
    E::V(n) => now == *n as i64,
    E::R(a, b, p) => match (&**a, &**b) {
      (E::V(a), E::V(b)) => {
        let inside = *a as i64 <= now && now <= *b as i64;
        match p.as_deref() {
          None => inside,
          Some(E::V(0)) => false,
          Some(E::V(k)) => inside && (now - *a as i64) % *k as i64 == 0,
          _ => false,
        }
      }
      _ => false,
    },
    E::Per(p) => match &**p {
      E::V(0) => false,
      E::V(k) => now <= max && now % *k as i64 == 0,
      _ => false,
    },
    E::List(l) => l.iter().any(|e| holds(e, now, max)),
  }
}
fn to_expr(e: &E) -> CronExpr {
  match e {
    E::Any => CronExpr::AnyValueExpr,
    E::Last => CronExpr::LastValueExpr,
    E::V(n) => CronExpr::ValueExpr(*n),
    E::R(a, b, p) => CronExpr::RangeExpr {
      from: Box::new(to_expr(a)),
      to: Box::new(to_expr(b)),
      per_option: Box::new(p.as_ref().map(|p| to_expr(p)).unwrap_or(CronExpr::NoOp)),
    },
    E::Per(p) => CronExpr::PerExpr { digit: Box::new(CronExpr::AnyValueExpr), option: Box::new(to_expr(p)) },
    E::List(l) => CronExpr::ListExpr(l.iter().map(to_expr).collect()),
  }
}
fn whole(f: &[E; 5]) -> CronExpr {
  CronExpr::CronExpr {
    mins: Box::new(to_expr(&f[0])),
    hours: Box::new(to_expr(&f[1])),
    days: Box::new(to_expr(&f[2])),
    months: Box::new(to_expr(&f[3])),
    day_of_weeks: Box::new(to_expr(&f[4])),
  }
}
fn matches(f: &[E; 5], t: &F) -> bool {
  holds(&f[0], t.min, 59) && holds(&f[1], t.hour, 23) && holds(&f[2], t.day, t.last) && holds(&f[3], t.month, 12) && holds(&f[4], t.dow, 7)
}
const LO: [u8; 5] = [0, 0, 1, 1, 1];
const HI: [u8; 5] = [59, 23, 31, 12, 7];

fn val(k: usize, r: &mut Rng) -> E {
  E::V(r.range(LO[k] as i64, HI[k] as i64) as u8)
}
/// `text`: only what the text form can express
fn gen(k: usize, text: bool, r: &mut Rng) -> E {
  match r.below(10) {
    0 | 1 => E::Any,
    2 => val(k, r),
    3 => if text { if k == 4 { E::Last } else { val(k, r) } } else { E::Last },
    4 => E::Per(Box::new(if text || r.chance(90) { pos(val(k, r)) } else { E::V(r.below(256) as u8) })),
    5 | 6 => {
      let n = 2 + r.below(3);
      E::List((0..n).map(|_| item(k, text, r)).collect())
    }
    _ => item(k, text, r),
  }
}
fn pos(e: E) -> E {
  if e == E::V(0) { E::V(1) } else { e }
}
fn item(k: usize, text: bool, r: &mut Rng) -> E {
  if r.chance(40) {
    return val(k, r);
  }
  if r.chance(8) && (k == 4 || !text) {
    return E::Last;
  }
  let (a, b) = (val(k, r), val(k, r));
  let (a, b) = if r.chance(80) { if num(&a) <= num(&b) { (a, b) } else { (b, a) } } else { (a, b) };
  let p = if r.chance(50) { Some(Box::new(if text || r.chance(90) { pos(if r.chance(60) { E::V((LO[k] as usize + r.below(6)) as u8) } else { val(k, r) }) } else { E::V(r.below(256) as u8) })) } else { None };
  let p = p.map(|x| Box::new(if text && num(&x) > HI[k] { E::V(HI[k]) } else { *x }));
  E::R(Box::new(a), Box::new(b), p)
}
fn num(e: &E) -> u8 {
  if let E::V(n) = e { *n } else { 0 }
}
const DOW: [&str; 7] = ["SUN", "MON", "TUE", "WED", "THU", "FRI", "SAT"];
fn print(e: &E, k: usize, r: &mut Rng) -> String {
  match e {
    E::Any => "*".into(),
    E::Last => "L".into(),
    E::V(n) => {
      if k == 4 && (1..=7).contains(n) && r.chance(50) {
        DOW[*n as usize - 1].into()
      } else if k < 4 && *n < 10 && r.chance(30) {
        format!("0{}", n)
      } else {
        n.to_string()
      }
    }
    E::R(a, b, p) => format!("{}-{}{}", print(a, k, r), print(b, k, r), p.as_ref().map(|p| format!("/{}", print(p, k, r))).unwrap_or_default()),
    E::Per(p) => format!("*/{}", print(p, k, r)),
    E::List(l) => l.iter().map(|e| print(e, k, r)).collect::<Vec<_>>().join(","),
  }
}

// ---- an independent reading of cron text
fn read_digit(s: &str, k: usize) -> Option<E> {
  if k == 4 {
    if s == "L" {
      return Some(E::Last);
    }
    if let Some(i) = DOW.iter().position(|d| *d == s) {
      return Some(E::V(i as u8 + 1));
    }
    if s.len() != 1 {
      return None;
    }
  }
  if s.is_empty() || s.len() > 2 || !s.bytes().all(|b| b.is_ascii_digit()) {
    return None;
  }
  let n: u8 = s.parse().ok()?;
  if n < LO[k] || n > HI[k] {
    return None;
  }
  Some(E::V(n))
}
fn read_item(s: &str, k: usize) -> Option<E> {
  let mut it = s.splitn(2, '-');
  let a = it.next()?;
  match it.next() {
    None => read_digit(a, k),
    Some(rest) => {
      let mut q = rest.splitn(2, '/');
      let b = q.next()?;
      let p = match q.next() {
        None => None,
        Some(x) => Some(Box::new(read_digit(x, k)?)),
      };
      Some(E::R(Box::new(read_digit(a, k)?), Box::new(read_digit(b, k)?), p))
    }
  }
}
fn read_field(s: &str, k: usize) -> Option<E> {
  if s == "*" {
    return Some(E::Any);
  }
  if let Some(p) = s.strip_prefix("*/") {
    return Some(E::Per(Box::new(read_digit(p, k)?)));
  }
  let mut l = vec![];
  for x in s.split(',') {
    l.push(read_item(x, k)?);
  }
  Some(if l.len() == 1 { l.pop().unwrap() } else { E::List(l) })
}
fn read(s: &str) -> Option<[E; 5]> {
  let p: Vec<&str> = s.split(' ').collect();
  if p.len() != 5 {
    return None;
  }
  Some([read_field(p[0], 0)?, read_field(p[1], 1)?, read_field(p[2], 2)?, read_field(p[3], 3)?, read_field(p[4], 4)?])
}

fn instant(r: &mut Rng) -> i64 {
  let y = if r.chance(30) { *r.pick(&[1900i64, 1996, 1999, 2000, 2001, 2024, 2100, 2400, 1600]) } else { r.range(1583, 2999) };
  let m = if r.chance(40) { *r.pick(&[1i64, 2, 12, 2, 3]) } else { r.range(1, 12) };
  let d = if r.chance(40) { dim(y, m) - r.below(2) as i64 } else { r.range(1, dim(y, m)) };
  let t = if r.chance(30) { *r.pick(&[0i64, 59, 60, 3599, 3600, 86399, 86340, 82800]) } else { r.range(0, 86399) };
  days(y, m, d) * 86400 + t
}

fn eval_at(local: i64, off: i32, e: &CronExpr) -> bool {
  // `local` seconds are the wall clock of the zone
  if off == 0 {
    CronEvaluator::new(&Utc.timestamp_opt(local, 0).unwrap()).eval(e)
  } else {
    let z = FixedOffset::east_opt(off).unwrap();
    CronEvaluator::new(&z.timestamp_opt(local - off as i64, 0).unwrap()).eval(e)
  }
}

fn c12(rep: &mut Report, rng: &mut Rng) {
  // every value of every field against every expression over few values
  for k in 0..5usize {
    for n in LO[k]..=HI[k] {
      for e in [E::V(n), E::Per(Box::new(E::V(n.max(1)))), E::R(Box::new(E::V(LO[k])), Box::new(E::V(n)), None), E::R(Box::new(E::V(n)), Box::new(E::V(HI[k])), Some(Box::new(E::V(2)))), E::R(Box::new(E::V(n)), Box::new(E::V(HI[k])), Some(Box::new(E::V(7)))), E::Last] {
        let mut f = [E::Any, E::Any, E::Any, E::Any, E::Any];
        f[k] = e;
        let mut bad = None;
        let mut cnt = 0;
        let x = whole(&f);
        for step in 0..62 {
          let local = days(2023 + step % 2, 1 + (step * 5) % 12, 1 + (step * 3) % 28) * 86400 + (step * 3600 * 7 + step * 60) % 86400;
          let local = match k {
            0 => local - local.rem_euclid(3600) + (step % 60) * 60,
            1 => local - local.rem_euclid(86400) + (step % 24) * 3600,
            2 => days(2024, 2 + step / 31, 1 + (step % 29)) * 86400,
            3 => days(2023, 1 + step % 12, 28) * 86400,
            _ => days(2023, 3, 1 + step % 31) * 86400,
          };
          cnt += 1;
          let got = guard(|| eval_at(local, 0, &x));
          if got != Ok(matches(&f, &fields(local))) {
            bad = Some((local, got));
            break;
          }
        }
        rep.evaluations += cnt;
        rep.count(&format!("{:?}", f), true);
        if let Some((l, g)) = bad {
          rep.violate(format!("{:?} at {:?}", x, Utc.timestamp_opt(l, 0).unwrap()), format!("got {:?}, expected {}", g, matches(&f, &fields(l))));
        }
      }
    }
    rep.group("every field value");
  }
  while rep.more() {
    let f = [gen(0, false, rng), gen(1, false, rng), gen(2, false, rng), gen(3, false, rng), gen(4, false, rng)];
    let f2: [E; 5];
    let f = if rng.chance(60) {
      // one field at a time, so that matches are common
      let mut g = [E::Any, E::Any, E::Any, E::Any, E::Any];
      let k = rng.below(5);
      g[k] = f[k].clone();
      f2 = g;
      f2
    } else {
      f
    };
    let x = whole(&f);
    rep.current(format!("{:?}", x));
    let off = if rng.chance(30) { *rng.pick(&[3600, -3600, 19800, 32400, -12600, 50400]) } else { 0 };
    for _ in 0..6 {
      let local = instant(rng);
      let want = matches(&f, &fields(local));
      rep.evaluations += 1;
      match guard(|| eval_at(local, off, &x)) {
        Ok(b) if b == want => rep.count(&format!("{:?} {}", f, local), want),
        g => {
          rep.violate(format!("{:?} at local {:?} (offset {}s)", x, Utc.timestamp_opt(local, 0).unwrap().naive_utc(), off), format!("got {:?}, expected {}", g, want));
          break;
        }
      }
    }
    rep.group("random expressions");
  }
}

fn sched_fields(rng: &mut Rng) -> [E; 5] {
  let wide = |k: usize, rng: &mut Rng| -> E { if rng.chance(60) { E::Any } else { gen(k, true, rng) } };
  match rng.below(4) {
    0 => [gen(0, true, rng), E::Any, E::Any, E::Any, E::Any],
    1 => [gen(0, true, rng), gen(1, true, rng), E::Any, E::Any, E::Any],
    2 => [val(0, rng), val(1, rng), wide(2, rng), E::Any, wide(4, rng)],
    _ => [E::Any, E::Any, gen(2, true, rng), wide(3, rng), gen(4, true, rng)],
  }
}

fn c13(rep: &mut Report, rng: &mut Rng) {
  while rep.more() {
    let f = sched_fields(rng);
    let text: Vec<String> = f.iter().enumerate().map(|(k, e)| print(e, k, rng)).collect();
    let text = text.join(" ");
    let off = if rng.chance(30) { *rng.pick(&[3600, -18000, 32400]) } else { 0 };
    let start = instant(rng);
    let start = (if rng.chance(70) { start - start.rem_euclid(60) } else { start }) * 1000 + if rng.chance(20) { rng.range(1, 999) } else { 0 };
    let bounded = rng.chance(60);
    let horizon = 60_000 * *rng.pick(&[0i64, 1, 2, 59, 60, 61, 1439, 1440, 2000, 6000]);
    let end = if bounded { start + horizon + if rng.chance(40) { rng.range(0, 61) * 1000 } else { 0 } + if rng.chance(20) { rng.range(-999, 999) } else { 0 } } else { i64::MAX };
    let end = if end < start { start } else { end };
    // brute force
    let want_n = 1 + rng.below(5);
    let mut want = vec![];
    let mut t = start;
    let limit = start + 60_000 * 9000;
    while want.len() < want_n && t <= end && t <= limit {
      if matches(&f, &fields(t.div_euclid(1000))) {
        want.push(t);
      }
      t += 60_000;
    }
    let complete = t > end; // nothing left before the end
    if want.len() < want_n && !complete {
      continue; // too far in the future
    }
    let again = rng.chance(50);
    let key = format!("{:?} from {:?} to {} offset {} take {}", text, Utc.timestamp_millis_opt(start).unwrap().naive_utc(), if bounded { format!("{:?}", Utc.timestamp_millis_opt(end).unwrap().naive_utc()) } else { "unbounded".into() }, off, want_n);
    let w2 = want.clone();
    let nontrivial = !want.is_empty();
    rep.case(key, nontrivial, move || {
      let z = FixedOffset::east_opt(off).unwrap();
      let at = |t: i64| z.timestamp_millis_opt(t - off as i64 * 1000).unwrap();
      let got: Vec<i64> = if bounded {
        let e = CronParser::parse(&text)?;
        let iv = CronInterval::new(LimitValue::Limit(at(start)), LimitValue::Limit(at(end)), CronSpecification::new(e));
        let mut it = iv.iter(z);
        let mut v = vec![];
        for _ in 0..want_n {
          match it.next() {
            Some(x) => v.push(x.timestamp_millis() + off as i64 * 1000),
            None => {
              if again {
                if let Some(x) = it.next() {
                  return Err(format!("after the end the iterator yields {:?}", x));
                }
              }
              break;
            }
          }
        }
        v
      } else {
        CronSchedule::new(&text)?.upcoming(at(start)).take(want_n).map(|x: DateTime<FixedOffset>| x.timestamp_millis() + off as i64 * 1000).collect()
      };
      if got != w2 {
        let d = |v: &Vec<i64>| v.iter().map(|t| Utc.timestamp_millis_opt(*t).unwrap().naive_utc().to_string()).collect::<Vec<_>>();
        return Err(format!("yields {:?}, expected {:?}", d(&got), d(&w2)));
      }
      Ok(())
    });
    rep.group(if bounded { "bounded intervals" } else { "unbounded intervals" });
  }
}

/// what the text form leaves open is not judged: a comma before the end of a field
fn open(s: &str) -> bool {
  s.split(' ').any(|f| f.ends_with(','))
}

fn check_text(rep: &mut Report, s: &str, group: &str) {
  if open(s) {
    return;
  }
  let want = read(s);
  let t = s.to_string();
  let key = format!("{:?}", s);
  rep.group(group);
  rep.case(key, true, move || match (CronParser::parse(&t), &want) {
    (Ok(e), Some(w)) => {
      let w = whole(w);
      if e == w {
        if CronSchedule::<Utc>::new(&t).is_err() {
          return Err("the schedule rejects what the parser accepts".into());
        }
        Ok(())
      } else {
        Err(format!("read as {:?}, expected {:?}", e, w))
      }
    }
    (Err(_), None) => {
      if CronSchedule::<Utc>::new(&t).is_ok() {
        return Err("the schedule accepts what the parser rejects".into());
      }
      Ok(())
    }
    (Ok(e), None) => Err(format!("accepted as {:?}, though it is not a cron expression", e)),
    (Err(m), Some(_)) => Err(format!("rejected ({}), though it is a cron expression", m)),
  });
}

fn c14(rep: &mut Report, rng: &mut Rng) {
  let star = ["*"; 5];
  // every number with one or two digits in every field, alone, as range ends and steps; all day names
  for k in 0..5 {
    let mut words: Vec<String> = (0..100).flat_map(|n| if n < 10 { vec![format!("{}", n), format!("0{}", n)] } else { vec![format!("{}", n)] }).collect();
    words.extend(DOW.iter().map(|s| s.to_string()));
    words.extend(["L", "sun", "Mon", "100", "007", "-1", "", "A", "SUNDAY", "MO", "１"].iter().map(|s| s.to_string()));
    for w in &words {
      for pat in ["X", "*/X", "1-X", "X-3", "1-2/X", "2,X", "X,3"] {
        let mut f: Vec<String> = star.iter().map(|s| s.to_string()).collect();
        f[k] = pat.replace('X', w);
        check_text(rep, &f.join(" "), "every number in every place");
      }
      if rep.violations.len() >= 3 {
        return;
      }
    }
  }
  for s in ["", " ", "* * * *", "* * * * * *", "* * * * * ", " * * * * *", "*  * * * *", "*\t* * * *", "** * * * *", "* * * * */", "*/* * * * *", "*-5 * * * *", "1--2 * * * *", "1-2-3 * * * *", "1-2/3/4 * * * *", "1/2 * * * *", ",1 * * * *", "1,,2 * * * *", "* * * * *\n", "1,* * * * *", "*,1 * * * *"] {
    check_text(rep, s, "shapes");
  }
  while rep.more() {
    let f: Vec<E> = (0..5).map(|k| gen(k, true, rng)).collect();
    let s: Vec<String> = f.iter().enumerate().map(|(k, e)| print(e, k, rng)).collect();
    let mut s = s.join(" ");
    if rng.chance(50) {
      let mut cs: Vec<char> = s.chars().collect();
      for _ in 0..1 + rng.below(2) {
        let i = rng.below(cs.len() + 1);
        let c = *rng.pick(&['0', '1', '2', '3', '5', '6', '9', ',', '-', '/', '*', ' ', 'L', 'S', 'x', '日']);
        match rng.below(3) {
          0 if i < cs.len() => {
            cs.remove(i);
          }
          1 if i < cs.len() => cs[i] = c,
          _ => cs.insert(i, c),
        }
      }
      s = cs.into_iter().collect();
      check_text(rep, &s, "mutated");
    } else {
      check_text(rep, &s, "printed");
    }
  }
}

fn main() {
  let mut rep = Report::from_args();
  let mut rng = Rng::new(rep.seed);
  // the calendar used as oracle agrees with itself
  for z in (-200000..400000).step_by(37) {
    let (y, m, d) = civil(z);
    assert_eq!(days(y, m, d), z);
    let _ = (Utc.timestamp_opt(0, 0).unwrap().hour(), Utc.timestamp_opt(0, 0).unwrap().day());
  }
  match rep.prop.as_str() {
    "C12" => c12(&mut rep, &mut rng),
    "C13" => c13(&mut rep, &mut rng),
    "C14" => c14(&mut rep, &mut rng),
    _ => (),
  }
  rep.idle();
  rep.finish();
}
