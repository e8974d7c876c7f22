// properties of values that need no parser term: element classes, sets, ranges, states, results
use crate::common::*;
use oni_comb_parser_rs::prelude::*;

fn cls(c: u32) -> [bool; 14] {
  let d = (48..=57).contains(&c);
  let up = (65..=90).contains(&c);
  let lo = (97..=122).contains(&c);
  let sp = c == 32 || c == 9;
  let ms = sp || c == 10 || c == 13;
  [
    sp, ms, ms || c == 12, c <= 127, up, lo, up || lo, d, c == 48, d && c != 48, d || up || lo,
    d || (65..=70).contains(&c) || (97..=102).contains(&c),
    (48..=56).contains(&c),
    (33..=47).contains(&c) || (58..=64).contains(&c) || (91..=96).contains(&c) || (123..=126).contains(&c),
  ]
}
fn of<E: Element>(e: E) -> [bool; 14] {
  [
    e.is_ascii_space(), e.is_ascii_multi_space(), e.is_ascii_whitespace(), e.is_ascii(), e.is_ascii_alpha_uppercase(), e.is_ascii_alpha_lowercase(), e.is_ascii_alpha(),
    e.is_ascii_digit(), e.is_ascii_digit_zero(), e.is_ascii_digit_non_zero(), e.is_ascii_alpha_digit(), e.is_ascii_hex_digit(), e.is_ascii_oct_digit(), e.is_ascii_punctuation(),
  ]
}
static NAMES: [&str; 14] = ["space", "multi_space", "whitespace", "ascii", "uppercase", "lowercase", "alpha", "digit", "digit_zero", "digit_non_zero", "alpha_digit", "hex", "oct", "punctuation"];

fn parsers<E: Element>(x: &[E]) -> Vec<(&'static str, bool, usize, bool)> {
  // (name of the class, accepted, length, value is the element)
  let mut out = vec![];
  macro_rules! p { ($n:expr, $r:expr, $v:expr) => {
    match $r.parse(x) { ParseResult::Success { value, length } => out.push(($n, true, length, *value == x[0])), ParseResult::Failure { committed_status, .. } => out.push(($n, false, 0, committed_status.is_uncommitted())) }
    match $v.parse(x) { ParseResult::Success { value, length } => out.push(($n, true, length, value == x[0])), ParseResult::Failure { committed_status, .. } => out.push(($n, false, 0, committed_status.is_uncommitted())) }
  } }
  p!("space", elm_space_ref(), elm_space());
  p!("multi_space", elm_multi_space_ref(), elm_multi_space());
  p!("alpha", elm_alpha_ref(), elm_alpha());
  p!("alpha_digit", elm_alpha_digit_ref(), elm_alpha_digit());
  p!("digit", elm_digit_ref(), elm_digit());
  p!("digit_non_zero", elm_digit_1_9_ref(), elm_digit_1_9());
  p!("hex", elm_hex_digit_ref(), elm_hex_digit());
  p!("oct", elm_oct_digit_ref(), elm_oct_digit());
  out
}

fn one<E: Element>(rep: &mut Report, e: E, code: u32) {
  let want = cls(code);
  let r = guard(|| {
    let mut bad = vec![];
    let got = of(e);
    for i in 0..14 {
      if got[i] != want[i] {
        bad.push(format!("is {} = {}", NAMES[i], got[i]));
      }
    }
    if e.is_ascii_graphic() != (33..=126).contains(&code) {
      bad.push("graphic".into());
    }
    if e.is_ascii_control() != (code < 32 || code == 127) {
      bad.push("control".into());
    }
    if e.to_char() as u32 != code {
      bad.push("to_char".into());
    }
    for x in [vec![e], vec![e, e]] {
      for (n, acc, len, val) in parsers(&x) {
        let i = NAMES.iter().position(|m| *m == n).unwrap();
        if acc != want[i] || len != acc as usize || !val {
          bad.push(format!("the {} parser: accepted={} length={}", n, acc, len));
        }
      }
    }
    bad
  });
  rep.evaluations += 1;
  match r {
    Ok(b) if b.is_empty() => (),
    Ok(b) => rep.violate(format!("{} {:?} (code {})", std::any::type_name::<E>(), e, code), b.join("; ")),
    Err(m) => rep.violate(format!("element {}", code), m),
  }
}

pub fn run(rep: &mut Report, prop: &str, rng: &mut Rng) {
  if prop == "C05" {
    rep.begin(|| "element classes".into(), true);
    for b in 0..=255u8 {
      one(rep, b, b as u32);
    }
    let top = if rep.thorough { 0x10FFFF } else { 0x2FF };
    for c in 0..=top {
      if let Some(c) = char::from_u32(c) {
        one(rep, c, c as u32);
      }
    }
    for _ in 0..2000 {
      if let Some(c) = char::from_u32(rng.below(0x10FFFF) as u32) {
        one(rep, c, c as u32);
      }
    }
    for _ in 0..3000 {
      let (a, b, x) = (rng.below(8) as u8, rng.below(8) as u8, rng.below(10) as u8);
      let v: Vec<u8> = (0..rng.below(5)).map(|_| rng.below(8) as u8).collect();
      let base = rng.below(240) as u8;
      rep.case(format!("sets over u8: {}..{} {:?} has {}", a, b, v, x), true, || {
        let ck = |n: &str, got: bool, want: bool| if got == want { Ok(()) } else { Err(format!("{} contains = {}", n, got)) };
        ck("slice", Set::contains(&v[..], &x), v.iter().any(|y| *y == x))?;
        ck("range", Set::contains(&(a..b), &x), a <= x && x < b)?;
        ck("inclusive range", Set::contains(&(a..=b), &x), a <= x && x <= b)?;
        ck("from", Set::contains(&(a..), &x), a <= x)?;
        ck("to", Set::contains(&(..b), &x), x < b)?;
        ck("to inclusive", Set::contains(&(..=b), &x), x <= b)?;
        ck("full", Set::contains(&(..), &x), true)?;
        let arr: [u8; 4] = [a, b, a ^ 3, 7];
        ck("array", Set::contains(&arr, &x), arr.iter().any(|y| *y == x))?;
        // parsers over bytes
        let i = [base.wrapping_add(x), base];
        let inside = base.wrapping_add(a) <= i[0] && i[0] <= base.wrapping_add(b);
        ck("elm_in", elm_in(base.wrapping_add(a), base.wrapping_add(b)).parse(&i).is_success(), inside)?;
        let inside = base.wrapping_add(a) <= i[0] && i[0] < base.wrapping_add(b);
        ck("elm_from_until", elm_from_until(base.wrapping_add(a), base.wrapping_add(b)).parse(&i).is_success(), inside)?;
        Ok(())
      });
    }
    rep.idle();
  }
  if prop == "C04" {
    for _ in 0..500 {
      let (a, b) = (rng.below(9), rng.below(9));
      rep.case(format!("bounds of ranges over {} and {}", a, b), true, || {
        let f = |x: Bound<usize>| match x {
          Bound::Included(v) => format!("Included({})", v),
          Bound::Excluded(v) => format!("Excluded({})", v),
          Bound::Unbounded => "Unbounded".to_string(),
        };
        let mut got = String::new();
        macro_rules! add {
          ($n:expr, $r:expr) => {{
            let r = $r;
            got.push_str(&format!("{} {} {}|", $n, f(RangeArgument::start(&r)), f(RangeArgument::end(&r))));
          }};
        }
        add!("range", a..b);
        add!("inclusive", a..=b);
        add!("from", a..);
        add!("to", ..b);
        add!("toinc", ..=b);
        add!("full", ..);
        add!("one", a);
        let want = format!("range Included({a}) Excluded({b})|inclusive Included({a}) Included({b})|from Included({a}) Unbounded|to Unbounded Excluded({b})|toinc Unbounded Included({b})|full Unbounded Unbounded|one Included({a}) Included({a})|");
        if got == want { Ok(()) } else { Err(format!("{} instead of {}", got, want)) }
      });
    }
  }
  if prop == "C02" || prop == "C01" || prop == "C10" {
    for _ in 0..400 {
      let (ok, v, n, m, com, add) = (rng.chance(50), rng.below(50), rng.below(20), rng.below(20), rng.chance(50), rng.chance(50));
      rep.case(format!("result ok={} value={} length={} by={} committed={} add={}", ok, v, n, m, com, add), true, || {
        let st = |b: bool| -> CommittedStatus { b.into() };
        let mk = || -> ParseResult<char, usize> { if ok { ParseResult::successful(v, n) } else { ParseResult::failed(ParseError::of_custom(v, None, "x".into()), st(com)) } };
        let view = |r: ParseResult<char, usize>| match r { ParseResult::Success { value, length } => format!("ok {} {}", value, length), ParseResult::Failure { error, committed_status } => format!("err {} {}", error, committed_status.is_committed()) };
        let exp = |o: String, c: bool| if ok { o } else { format!("err x at {} {}", v, c) };
        let ck = |n: &str, got: String, want: String| if got == want { Ok(()) } else { Err(format!("{}: {} instead of {}", n, got, want)) };
        ck("itself", view(mk()), exp(format!("ok {} {}", v, n), com))?;
        ck("with_uncommitted", view(mk().with_uncommitted()), exp(format!("ok {} {}", v, n), false))?;
        ck("add_commit", view(mk().add_commit(add)), exp(format!("ok {} {}", v, n), com || add))?;
        ck("advance_success", view(mk().advance_success(m)), exp(format!("ok {} {}", v, n + m), com))?;
        ck("map", view(mk().map(|a, b| (a + 1, b + 2))), exp(format!("ok {} {}", v + 1, n + 2), com))?;
        ck("flat_map", view(mk().flat_map(|a, b| ParseResult::successful(a + b, 3))), exp(format!("ok {} 3", v + n), com))?;
        ck("map_err", view(mk().map_err(|_| ParseError::of_custom(77, None, "y".into()))), if ok { format!("ok {} {}", v, n) } else { format!("err y at 77 {}", com) })?;
        ck("or", format!("{}", st(com).or(st(add)).is_committed()), format!("{}", com || add))?;
        ck("uncommitted", format!("{}", st(com).is_uncommitted()), format!("{}", !com))?;
        ck("failed_with", view(ParseResult::failed_with_commit(ParseError::of_custom(1, None, "z".into()))), "err z at 1 true".into())?;
        ck("failed_with", view(ParseResult::failed_with_uncommitted(ParseError::of_custom(1, None, "z".into()))), "err z at 1 false".into())?;
        let data: Vec<usize> = (0..20).collect();
        let s = ParseState::new(&data, n).advance_by(0);
        ck("input", format!("{:?}", s.input()), format!("{:?}", &data[n..]))?;
        let k = m.min(20 - n);
        ck("slice_with_len", format!("{:?}", s.slice_with_len(k)), format!("{:?}", &data[n..n + k]))?;
        ck("advance_by", format!("{:?}", s.advance_by(k).input()), format!("{:?}", &data[n + k..]))?;
        ck("offsets", format!("{:?} {:?}", s.current_offset(), s.last_offset()), format!("{:?} {:?}", n, if n == 0 { None } else { Some(n - 1) }))
      });
    }
  }
  if prop == "C10" {
    // errors that claim to be anywhere can still be inspected
    let data: Vec<char> = "añb1".chars().collect();
    for _ in 0..2000 {
      let big = |r: &mut Rng| match r.below(6) { 0 => usize::MAX, 1 => usize::MAX - 2, _ => r.below(8) };
      let (o, l, k) = (big(rng), big(rng), rng.below(4));
      rep.case(format!("error over 4 elements at {} of length {} (kind {})", o, l, k), true, || {
        let e = match k {
          0 => ParseError::of_mismatch(&data, o, l, "m".into()),
          1 => ParseError::of_conversion(&data, o, l, "m".into()),
          2 => ParseError::of_expect(3, Box::new(ParseError::of_mismatch(&data, o, l, "m".into())), "m".into()),
          _ => ParseError::of_custom(3, Some(Box::new(ParseError::of_mismatch(&data, o, l, "m".into()))), "m".into()),
        };
        let inside = o.checked_add(l).map_or(false, |e| e <= 4);
        let _ = format!("{}", e);
        match (e.input(), inside) {
          (None, false) => (),
          (Some(x), true) if x == &data[o..o + l] => (),
          (got, _) => return Err(format!("input() is {:?}", got)),
        }
        let s = e.input_string();
        if inside != s.is_some() {
          return Err("input_string".into());
        }
        let bytes = [0xC3u8, 0xA9, b'a', 0xFF];
        let f = ParseError::of_mismatch(&bytes[..], o, l, "m".into());
        let _ = f.input_string();
        Ok(())
      });
    }
  }
}
