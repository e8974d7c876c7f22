// parser terms, their random generation, and their construction through the public interface of the library
use crate::common::Rng;
use oni_comb_parser_rs::prelude::*;
use std::fmt;

pub static ALPHA: &[char] = &['a', 'b', 'c', '1', '0', '8', '+', ' ', 'A', 'é', '\n', 'B'];
pub static SETS: &[&str] = &["ab", "1+ ", "éA", ""];
static ARR: [char; 3] = ['a', '1', 'é'];
static RANGES: (std::ops::Range<char>, std::ops::RangeInclusive<char>, std::ops::RangeFrom<char>, std::ops::RangeTo<char>, std::ops::RangeToInclusive<char>) = ('a'..'c', 'a'..='c', 'b'.., ..'b', ..='b');

#[derive(Clone, PartialEq)]
pub enum V {
  U,
  C(char),
  S(Vec<char>),
  B(bool),
  N(usize),
  O(Option<Box<V>>),
  L(Vec<V>),
  T(Box<V>, Box<V>),
  Str(String),
  X(Box<V>, Box<V>, Box<V>),
}
impl fmt::Debug for V {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    match self {
      V::U => write!(f, "()"),
      V::C(c) => write!(f, "{:?}", c),
      V::S(s) => write!(f, "{:?}", s),
      V::B(b) => write!(f, "{}", b),
      V::N(n) => write!(f, "{}", n),
      V::O(o) => write!(f, "{:?}", o),
      V::L(l) => write!(f, "{:?}", l),
      V::T(a, b) => write!(f, "({:?}, {:?})", a, b),
      V::Str(s) => write!(f, "{:?}", s),
      V::X(o, a, b) => write!(f, "[{:?} {:?} {:?}]", a, o, b),
    }
  }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
  Unit, Empty, Begin, End, Succ, SuccLazy, Pure, Failed, FailedC, FailedU, FailedLazy,
  Any, Elm, Pred, Of, NoneOf, OfArr, OfRange, In, Until, Space, MultiSpace, Alpha, AlphaDigit, Digit, Digit19, Hex, Oct,
  Seq, Tag, TagNC, Regex,
  Take, While0, While1, WhileNM, Till0, Till1, Skip,
  Map, FlatMap, Filter, FilterNot, MapRes, Exists, Not, OpNot, Opt, Attempt, Peek, Discard, Collect, LastOffset, NextOffset,
  Log, Name, Cache, Lazy,
  AndThen, OpAdd, Or, OpBar, SkipLeft, OpMul, SkipRight, OpSub, Surround, SurroundFn,
  Repeat, Many0, Many1, ManyNM, Count, RepSep, Many0Sep, Many1Sep, ManyNMSep, CountSep,
  ChainL1, ChainR1, ScanR1, ChainL0, ChainR0, RestL1, RestR1,
  PPUnit, PPSucc, PPSuccLazy, PPFailed, PPFailedLazy, PPMap, PPFlatMap, PPFilter,
}
use K::*;

/// a term: kind, children, numbers, text
#[derive(Clone)]
pub struct P {
  pub k: K,
  pub a: Vec<P>,
  pub n: Vec<usize>,
  pub s: String,
}

pub fn show(p: &P) -> String {
  let mut parts: Vec<String> = p.a.iter().map(show).collect();
  match p.k {
    Seq | Tag | TagNC => parts.push(format!("{:?}", p.s)),
    Regex => parts.push(format!("{:?}", REGEXES[p.n[0]].0)),
    Elm => parts.push(format!("{:?}", chr(p.n[0]))),
    In | Until => parts.push(format!("{:?}, {:?}", chr(p.n[0]), chr(p.n[1]))),
    Of | NoneOf => parts.push(format!("{:?}", SETS[p.n[0]])),
    Pred | While0 | While1 | Till0 | Till1 => parts.push(PRED_NAMES[p.n[0]].to_string()),
    WhileNM => parts.push(format!("{}, {}, {}", p.n[1], p.n[2], PRED_NAMES[p.n[0]])),
    Repeat | RepSep => parts.push(range_text(&p.n)),
    _ => parts.extend(p.n.iter().map(|n| n.to_string())),
  }
  format!("{:?}({})", p.k, parts.join(", "))
}

pub fn chr(i: usize) -> char {
  ALPHA[i % ALPHA.len()]
}

pub static PRED_NAMES: &[&str] = &["is-a-or-b", "is-digit", "not-space", "never", "always", "non-ascii"];
pub fn pred(i: usize, c: char) -> bool {
  match i {
    0 => c == 'a' || c == 'b',
    1 => ('0'..='9').contains(&c),
    2 => c != ' ',
    3 => false,
    4 => true,
    _ => c as u32 > 127,
  }
}

/// an arbitrary but fixed function on values
pub fn hash(v: &V) -> usize {
  let s = format!("{:?}", v);
  s.bytes().fold(7usize, |h, b| h.wrapping_mul(31).wrapping_add(b as usize)) >> 3
}
pub fn vpred(i: usize, v: &V) -> bool {
  match i % 4 {
    0 => hash(v) % 2 == 0,
    1 => hash(v) % 3 != 0,
    2 => true,
    _ => false,
  }
}

// a regular expression, and what it must match at the start of the input (hand-written)
pub static REGEXES: &[(&str, fn(&[char]) -> Option<usize>)] = &[
  ("[0-9]+", |x| { let n = x.iter().take_while(|c| c.is_ascii_digit()).count(); if n > 0 { Some(n) } else { None } }),
  ("^[0-9]+", |x| { let n = x.iter().take_while(|c| c.is_ascii_digit()).count(); if n > 0 { Some(n) } else { None } }),
  ("a*", |x| Some(x.iter().take_while(|c| **c == 'a').count())),
  ("a+b", |x| { let n = x.iter().take_while(|c| **c == 'a').count(); if n > 0 && x.get(n) == Some(&'b') { Some(n + 1) } else { None } }),
  ("é+", |x| { let n = x.iter().take_while(|c| **c == 'é').count(); if n > 0 { Some(n) } else { None } }),
  ("(é|a)b?", |x| match x.first() { Some('é') | Some('a') => Some(if x.get(1) == Some(&'b') { 2 } else { 1 }), _ => None }),
  ("1|b", |x| match x.first() { Some('1') | Some('b') => Some(1), _ => None }),
  ("[ab]{2}", |x| if x.len() >= 2 && x[..2].iter().all(|c| *c == 'a' || *c == 'b') { Some(2) } else { None }),
];

pub fn range_text(n: &[usize]) -> String {
  match n[0] {
    0 => "..".into(),
    1 => format!("{}..{}", n[1], n[2]),
    2 => format!("{}..={}", n[1], n[2]),
    3 => format!("{}..", n[1]),
    4 => format!("..{}", n[2]),
    5 => format!("..={}", n[2]),
    _ => format!("{}", n[1]),
  }
}
/// (at least, at most)
pub fn range_bounds(n: &[usize]) -> (usize, Option<usize>) {
  match n[0] {
    0 => (0, None),
    1 => (n[1], Some(n[2].saturating_sub(1))),
    2 => (n[1], Some(n[2])),
    3 => (n[1], None),
    4 => (0, Some(n[2].saturating_sub(1))),
    5 => (0, Some(n[2])),
    _ => (n[1], Some(n[1])),
  }
}

fn cond(e: bool) -> CommittedStatus {
  if e { CommittedStatus::Committed } else { CommittedStatus::Uncommitted }
}

macro_rules! both {
  ($n:expr, $refp:expr, $valp:expr) => { if $n == 0 { $refp.map(|c: &char| V::C(*c)) } else { $valp.map(V::C) } };
}

fn operator(o: V) -> impl Fn(V, V) -> V + Clone {
  move |a: V, b: V| V::X(Box::new(o.clone()), Box::new(a), Box::new(b))
}
macro_rules! bop {
  ($p:expr) => {
    $p.map(operator)
  };
}

pub fn build<'a>(p: &'a P) -> Parser<'a, char, V> {
  let c = |i: usize| build(&p.a[i]);
  let n = |i: usize| p.n[i];
  match p.k {
    Unit => unit().map(|_: ()| V::U),
    Empty => empty().map(|_: ()| V::U),
    Begin => begin().map(|_: ()| V::U),
    End => end().map(|_: ()| V::U),
    Succ => successful(V::N(n(0))),
    SuccLazy => { let k = n(0); successful_lazy(move || V::N(k)) }
    Pure => { let k = n(0); <Parser<'a, char, V> as ParserPure<'a>>::pure(move || V::N(k)) }
    Failed => failed(err(n(0)), cond(n(1) == 1)),
    FailedC => failed_with_commit(err(n(0))),
    FailedU => failed_with_uncommit(err(n(0))),
    FailedLazy => { let (a, b) = (n(0), n(1)); failed_lazy(move || (err(a), cond(b == 1))) }
    Any => both!(n(0), elm_any_ref(), elm_any()),
    Elm => { let x = chr(n(0)); both!(n(1), elm_ref(x), elm(x)) }
    Pred => { let i = n(0); both!(n(1), elm_pred_ref(move |c: &char| pred(i, *c)), elm_pred(move |c: &char| pred(i, *c))) }
    Of => both!(n(1), elm_ref_of(SETS[n(0)]), elm_of(SETS[n(0)])),
    NoneOf => both!(n(1), none_ref_of(SETS[n(0)]), none_of(SETS[n(0)])),
    OfArr => both!(n(1), elm_ref_of(&ARR[..n(0)]), none_of(&ARR[..n(0)])),
    OfRange => match n(0) {
      0 => both!(n(1), elm_ref_of(&RANGES.0), none_of(&RANGES.0)),
      1 => both!(n(1), elm_ref_of(&RANGES.1), none_of(&RANGES.1)),
      2 => both!(n(1), elm_ref_of(&RANGES.2), none_of(&RANGES.2)),
      3 => both!(n(1), elm_ref_of(&RANGES.3), none_of(&RANGES.3)),
      4 => both!(n(1), elm_ref_of(&RANGES.4), none_of(&RANGES.4)),
      _ => both!(n(1), elm_ref_of(&..), none_of(&..)),
    },
    In => { let (x, y) = (chr(n(0)), chr(n(1))); both!(n(2), elm_in_ref(x, y), elm_in(x, y)) }
    Until => { let (x, y) = (chr(n(0)), chr(n(1))); both!(n(2), elm_from_until_ref(x, y), elm_from_until(x, y)) }
    Space => both!(n(0), elm_space_ref(), elm_space()),
    MultiSpace => both!(n(0), elm_multi_space_ref(), elm_multi_space()),
    Alpha => both!(n(0), elm_alpha_ref(), elm_alpha()),
    AlphaDigit => both!(n(0), elm_alpha_digit_ref(), elm_alpha_digit()),
    Digit => both!(n(0), elm_digit_ref(), elm_digit()),
    Digit19 => both!(n(0), elm_digit_1_9_ref(), elm_digit_1_9()),
    Hex => both!(n(0), elm_hex_digit_ref(), elm_hex_digit()),
    Oct => both!(n(0), elm_oct_digit_ref(), elm_oct_digit()),
    Seq => { let v: &'static [char] = Box::leak(p.s.chars().collect::<Vec<_>>().into_boxed_slice()); seq(v).map(V::S) }
    Tag => tag(&p.s).map(V::Str),
    TagNC => tag_no_case(&p.s).map(V::Str),
    Regex => regex(REGEXES[n(0)].0).map(V::Str),
    Take => take(n(0)).map(|s: &[char]| V::S(s.to_vec())),
    While0 => { let i = n(0); take_while0(move |c: &char| pred(i, *c)).map(|s: &[char]| V::S(s.to_vec())) }
    While1 => { let i = n(0); take_while1(move |c: &char| pred(i, *c)).map(|s: &[char]| V::S(s.to_vec())) }
    WhileNM => { let i = n(0); take_while_n_m(n(1), n(2), move |c: &char| pred(i, *c)).map(|s: &[char]| V::S(s.to_vec())) }
    Till0 => { let i = n(0); take_till0(move |c: &char| pred(i, *c)).map(|s: &[char]| V::S(s.to_vec())) }
    Till1 => { let i = n(0); take_till1(move |c: &char| pred(i, *c)).map(|s: &[char]| V::S(s.to_vec())) }
    Skip => skip(n(0)).map(|_: ()| V::U),
    Map => { let k = n(0); c(0).map(move |v| V::T(Box::new(v), Box::new(V::N(k)))) }
    FlatMap => { let (x, y) = (c(1), c(2)); c(0).flat_map(move |v| if hash(&v) % 2 == 0 { x.clone() } else { y.clone() }) }
    Filter => { let i = n(0); c(0).with_filter(move |v| vpred(i, v)) }
    FilterNot => { let i = n(0); c(0).with_filter_not(move |v| vpred(i, v)) }
    MapRes => { let i = n(0); c(0).map_res(move |v| if vpred(i, &v) { Ok(V::T(Box::new(v), Box::new(V::U))) } else { Err("no") }) }
    Exists => c(0).exists().map(V::B),
    Not => c(0).not().map(|_| V::U),
    OpNot => (!c(0)).map(|_| V::U),
    Opt => c(0).opt().map(|o| V::O(o.map(Box::new))),
    Attempt => c(0).attempt(),
    Peek => c(0).peek(),
    Discard => c(0).discard().map(|_| V::U),
    Collect => c(0).collect().map(|s: &[char]| V::S(s.to_vec())),
    LastOffset => c(0).last_offset().map(V::N),
    NextOffset => c(0).next_offset().map(V::N),
    Log => match n(0) { 0 => c(0).debug("x"), 1 => c(0).info("x"), 2 => c(0).warn("x"), _ => c(0).error("x") },
    Name => c(0).name("x"),
    Cache => c(0).cache(),
    Lazy => { let q = c(0); lazy(move || q.clone()) }
    AndThen => c(0).and_then(c(1)).map(|(a, b)| V::T(Box::new(a), Box::new(b))),
    OpAdd => (c(0) + c(1)).map(|(a, b)| V::T(Box::new(a), Box::new(b))),
    Or => c(0).or(c(1)),
    OpBar => c(0) | c(1),
    SkipLeft => c(0).skip_left(c(1)),
    OpMul => c(0) * c(1),
    SkipRight => c(0).skip_right(c(1)),
    OpSub => c(0) - c(1),
    Surround => c(1).surround(c(0), c(2)),
    SurroundFn => surround(c(0), c(1), c(2)),
    Repeat => match n(0) {
      0 => c(0).repeat(..),
      1 => c(0).repeat(n(1)..n(2)),
      2 => c(0).repeat(n(1)..=n(2)),
      3 => c(0).repeat(n(1)..),
      4 => c(0).repeat(..n(2)),
      5 => c(0).repeat(..=n(2)),
      _ => c(0).repeat(n(1)),
    }.map(V::L),
    Many0 => c(0).of_many0().map(V::L),
    Many1 => c(0).of_many1().map(V::L),
    ManyNM => c(0).of_many_n_m(n(0), n(1)).map(V::L),
    Count => c(0).of_count(n(0)).map(V::L),
    RepSep => { let sep = if n(3) == 0 { None } else { Some(c(1)) }; match n(0) {
      0 => c(0).of_rep_sep(.., sep),
      1 => c(0).of_rep_sep(n(1)..n(2), sep),
      2 => c(0).of_rep_sep(n(1)..=n(2), sep),
      3 => c(0).of_rep_sep(n(1).., sep),
      4 => c(0).of_rep_sep(..n(2), sep),
      5 => c(0).of_rep_sep(..=n(2), sep),
      _ => c(0).of_rep_sep(n(1), sep),
    } }.map(V::L),
    Many0Sep => c(0).of_many0_sep(c(1)).map(V::L),
    Many1Sep => c(0).of_many1_sep(c(1)).map(V::L),
    ManyNMSep => c(0).of_many_n_m_sep(n(0), n(1), c(1)).map(V::L),
    CountSep => c(0).of_count_sep(n(0), c(1)).map(V::L),
    ChainL1 => c(0).chain_left1(bop!(c(1))),
    ChainR1 => c(0).chain_right1(bop!(c(1))),
    ScanR1 => c(0).scan_right1(bop!(c(1))),
    ChainL0 => c(0).chain_left0(bop!(c(1)), V::N(n(0))),
    ChainR0 => c(0).chain_right0(bop!(c(1)), V::N(n(0))),
    RestL1 => c(0).rest_left1(bop!(c(1)), V::N(n(0))),
    RestR1 => c(0).rest_right1(bop!(c(1)), V::N(n(0))),
    PPUnit => <ParserParsers as Parsers>::unit().map(|_: ()| V::U),
    PPSucc => ParserParsers::successful(V::N(n(0))),
    PPSuccLazy => { let k = n(0); ParserParsers::successful_lazy(move || V::N(k)) }
    PPFailed => ParserParsers::failed(err(n(0)), cond(n(1) == 1)),
    PPFailedLazy => { let (a, b) = (n(0), n(1)); ParserParsers::failed_lazy(move || (err(a), cond(b == 1))) }
    PPMap => { let k = n(0); ParserParsers::map(c(0), move |v| V::T(Box::new(v), Box::new(V::N(k)))) }
    PPFlatMap => { let (x, y) = (c(1), c(2)); ParserParsers::flat_map(c(0), move |v| if hash(&v) % 2 == 0 { x.clone() } else { y.clone() }) }
    PPFilter => { let i = n(0); ParserParsers::filter(c(0), move |v| vpred(i, v)) }
  }
}

fn err<'a>(i: usize) -> ParseError<'a, char> {
  match i {
    0 => ParseError::of_in_complete(),
    1 => ParseError::of_custom(3, None, "custom".to_string()),
    2 => ParseError::of_mismatch(&[], 0, 0, "m".to_string()),
    _ => ParseError::of_custom(1, Some(Box::new(ParseError::of_conversion(&[], 2, 1, "c".to_string()))), "custom".to_string()),
  }
}

// ------------------------------------------------------------------ generation

pub fn roots(prop: &str) -> Vec<K> {
  match prop {
    "C01" => vec![Unit, Empty, Begin, End, Succ, SuccLazy, Pure, AndThen, OpAdd, FlatMap, Map, SkipLeft, OpMul, SkipRight, OpSub, Surround, SurroundFn, Discard, PPUnit, PPSucc, PPSuccLazy, PPMap, PPFlatMap],
    "C02" => vec![Or, OpBar, Attempt, Opt, Failed, FailedC, FailedU, FailedLazy, FlatMap, PPFailed, PPFailedLazy, PPFlatMap, AndThen, SkipLeft, SkipRight, Surround],
    "C03" => vec![Exists, Not, OpNot, Peek, Collect, LastOffset, NextOffset, End],
    "C04" => vec![Repeat, Many0, Many1, ManyNM, Count, RepSep, RepSep, Many0Sep, Many1Sep, ManyNMSep, CountSep],
    "C05" => vec![Any, Elm, Pred, Of, NoneOf, OfArr, OfRange, In, Until, Space, MultiSpace, Alpha, AlphaDigit, Digit, Digit19, Hex, Oct],
    "C06" => vec![Seq, Tag, TagNC, Regex],
    "C07" => vec![Take, While0, While1, WhileNM, WhileNM, Till0, Till1, Skip],
    "C08" => vec![ChainL1, ChainR1, ScanR1, ChainL0, ChainR0, RestL1, RestR1],
    "C09" => vec![Log, Name, Cache, Lazy, Cache],
    "C11" => vec![Filter, FilterNot, MapRes, PPFilter],
    "C10" => ALL.iter().copied().filter(|k| !matches!(k, PPFilter)).collect(),
    _ => vec![],
  }
}
static ALL: &[K] = &[
  Unit, Empty, Begin, End, Succ, SuccLazy, Pure, Failed, FailedC, FailedU, FailedLazy, Any, Elm, Pred, Of, NoneOf, OfArr, OfRange, In, Until, Space,
  MultiSpace, Alpha, AlphaDigit, Digit, Digit19, Hex, Oct, Seq, Tag, TagNC, Regex, Take, While0, While1, WhileNM, Till0, Till1, Skip, Map, FlatMap, Filter, FilterNot, MapRes,
  Exists, Not, OpNot, Opt, Attempt, Peek, Discard, Collect, LastOffset, NextOffset, Log, Name, Cache, Lazy, AndThen, OpAdd, Or, OpBar,
  SkipLeft, OpMul, SkipRight, OpSub, Surround, SurroundFn, Repeat, Many0, Many1, ManyNM, Count, RepSep, Many0Sep, Many1Sep, ManyNMSep,
  CountSep, ChainL1, ChainR1, ScanR1, ChainL0, ChainR0, RestL1, RestR1,
];
static COMMON: &[K] = &[Elm, Elm, Elm, Pred, Any, Tag, Tag, Seq, FailedC, FailedU, Succ, Of, AndThen, AndThen, Or, Map, FlatMap, Opt, Attempt, SkipLeft, SkipRight, Repeat, Digit, Take, Unit];

fn word(r: &mut Rng, min: usize, max: usize) -> String {
  let n = min + r.below(max - min + 1);
  (0..n).map(|_| if r.chance(80) { ALPHA[r.below(4)] } else { *r.pick(ALPHA) }).collect()
}

pub fn arity(k: K) -> usize {
  match k {
    Map | Filter | FilterNot | MapRes | Exists | Not | OpNot | Opt | Attempt | Peek | Discard | Collect | LastOffset | NextOffset | Log | Name | Cache | Lazy | Repeat | Many0
    | Many1 | ManyNM | Count | PPMap | PPFilter => 1,
    AndThen | OpAdd | Or | OpBar | SkipLeft | OpMul | SkipRight | OpSub | RepSep | Many0Sep | Many1Sep | ManyNMSep | CountSep | ChainL1 | ChainR1 | ScanR1 | ChainL0 | ChainR0
    | RestL1 | RestR1 => 2,
    FlatMap | Surround | SurroundFn | PPFlatMap => 3,
    _ => 0,
  }
}

fn gen_any(depth: usize, r: &mut Rng) -> P {
  for _ in 0..20 {
    let k = if r.chance(70) { *r.pick(COMMON) } else { *r.pick(ALL) };
    if depth == 0 && arity(k) > 0 {
      continue;
    }
    return gen_root(k, depth, r);
  }
  gen_root(Elm, 0, r)
}
/// a parser that consumes when it succeeds, most of the time
fn gen_item(depth: usize, r: &mut Rng) -> P {
  if r.chance(60) {
    let k = *r.pick(&[Elm, Elm, Of, Tag, Digit, Seq, Pred, In]);
    return gen_root(k, 0, r);
  }
  if r.chance(50) && depth > 0 {
    let k = *r.pick(&[AndThen, Or, SkipLeft, FlatMap]);
    return P { k, a: (0..arity(k)).map(|_| gen_item(depth - 1, r)).collect(), n: vec![], s: String::new() };
  }
  gen_any(depth, r)
}

pub fn gen_root(k: K, depth: usize, r: &mut Rng) -> P {
  let d = depth.saturating_sub(1);
  let mut p = P { k, a: vec![], n: vec![], s: String::new() };
  let is_rep = matches!(k, Repeat | Many0 | Many1 | ManyNM | Count | RepSep | Many0Sep | Many1Sep | ManyNMSep | CountSep | ChainL1 | ChainR1 | ScanR1 | ChainL0 | ChainR0 | RestL1 | RestR1);
  for _ in 0..arity(k) {
    p.a.push(if is_rep && r.chance(85) { gen_item(d, r) } else { gen_any(d, r) });
  }
  let small = |r: &mut Rng| r.below(4);
  p.n = match k {
    Succ | SuccLazy | Pure | PPSucc | PPSuccLazy | Map | PPMap | ChainL0 | ChainR0 | RestL1 | RestR1 => vec![r.below(100)],
    Failed | FailedLazy | PPFailed | PPFailedLazy => vec![r.below(4), r.below(2)],
    FailedC | FailedU => vec![r.below(4)],
    Any | Space | MultiSpace | Alpha | AlphaDigit | Digit | Digit19 | Hex | Oct => vec![r.below(2)],
    Elm => vec![if r.chance(70) { r.below(4) } else { r.below(ALPHA.len()) }, r.below(2)],
    Pred => vec![r.below(6), r.below(2)],
    Of | NoneOf => vec![r.below(SETS.len()), r.below(2)],
    OfArr => vec![r.below(4), r.below(2)],
    OfRange => vec![r.below(6), r.below(2)],
    In | Until => vec![r.below(ALPHA.len()), r.below(ALPHA.len()), r.below(2)],
    Regex => vec![r.below(REGEXES.len())],
    Take | Skip | Count | CountSep => vec![if r.chance(4) { 1000 } else { small(r) }],
    While0 | While1 | Till0 | Till1 => vec![r.below(6)],
    WhileNM => { let n = r.below(4); vec![r.below(6), n, n + r.below(3)] }
    Filter | FilterNot | MapRes | PPFilter => vec![r.below(4)],
    Log => vec![r.below(4)],
    Repeat => { let (a, b) = (small(r), small(r)); vec![r.below(7), a, if r.chance(70) { a + r.below(3) } else { b }] }
    RepSep => { let (a, b) = (small(r), small(r)); vec![r.below(7), a, if r.chance(70) { a + r.below(3) } else { b }, if r.chance(80) { 1 } else { 0 }] }
    ManyNM | ManyNMSep => { let (a, b) = (small(r), small(r)); vec![a, if r.chance(70) { a + r.below(3) } else { b }] }
    _ => vec![],
  };
  match k {
    Seq | Tag | TagNC => { let (a, b) = (if r.chance(5) { 0 } else { 1 }, if r.chance(30) { 6 } else { 3 }); p.s = word(r, a, b) }
    _ => (),
  }
  p
}

/// terms with one child in place of the whole, or with a simpler child somewhere
pub fn smaller(p: &P) -> Vec<P> {
  let mut out: Vec<P> = p.a.clone();
  for i in 0..p.a.len() {
    let mut cs = vec![P { k: Unit, a: vec![], n: vec![], s: String::new() }, P { k: Elm, a: vec![], n: vec![0, 1], s: String::new() }, P { k: FailedU, a: vec![], n: vec![0], s: String::new() }];
    if p.a[i].k == Unit || p.a[i].k == Elm || p.a[i].k == FailedU {
      cs.clear();
    }
    cs.extend(smaller(&p.a[i]));
    for c in cs {
      let mut q = p.clone();
      q.a[i] = c;
      out.push(q);
    }
  }
  if !p.s.is_empty() {
    let mut q = p.clone();
    q.s.pop();
    out.push(q);
  }
  out
}

/// text that the term is likely to accept, at least for a while
pub fn emit(p: &P, r: &mut Rng, out: &mut Vec<char>, fuel: &mut usize) {
  if *fuel == 0 {
    return;
  }
  *fuel -= 1;
  let any = |r: &mut Rng| *r.pick(ALPHA);
  match p.k {
    Any => out.push(any(r)),
    Elm => out.push(chr(p.n[0])),
    Pred | While0 | While1 | WhileNM | Till0 | Till1 => {
      let n = match p.k { Pred => 1, WhileNM => p.n[1] + r.below(3), _ => r.below(4) };
      let pos: Vec<char> = ALPHA.iter().copied().filter(|c| pred(p.n[0], *c) != matches!(p.k, Till0 | Till1)).collect();
      if matches!(p.k, While0 | While1 | WhileNM) && r.chance(15) {
        out.push(any(r));
      }
      for _ in 0..n {
        if !pos.is_empty() {
          let c = *r.pick(&pos);
          out.push(c);
        }
      }
      if matches!(p.k, Till0 | Till1) {
        let neg: Vec<char> = ALPHA.iter().copied().filter(|c| pred(p.n[0], *c)).collect();
        if !neg.is_empty() && r.chance(85) {
          let c = *r.pick(&neg);
          out.push(c);
        }
      }
    }
    Of => { let cs: Vec<char> = SETS[p.n[0]].chars().collect(); if !cs.is_empty() { let c = *r.pick(&cs); out.push(c) } }
    NoneOf | OfArr | OfRange | In | Until => out.push(any(r)),
    Space => out.push(' '),
    MultiSpace => out.push('\n'),
    Alpha => out.push(*r.pick(&['a', 'B'])),
    AlphaDigit => out.push(*r.pick(&['a', '1'])),
    Digit | Digit19 => out.push(*r.pick(&['0', '1', '8'])),
    Hex => out.push(*r.pick(&['a', 'A', '1'])),
    Oct => out.push(*r.pick(&['0', '1', '8'])),
    Seq | Tag => out.extend(p.s.chars()),
    TagNC => for c in p.s.chars() { out.push(match r.below(3) { 0 => c.to_ascii_uppercase(), 1 => c.to_ascii_lowercase(), _ => c }) },
    Regex => match p.n[0] { 0 | 1 => out.extend("10".chars()), 3 => out.extend("aab".chars()), 4 => out.extend("éé".chars()), 7 => out.extend("ab".chars()), _ => out.push(*r.pick(&['a', 'é', '1', 'b'])) },
    Take | Skip => for _ in 0..p.n[0].min(5) { out.push(any(r)) },
    Or | OpBar => { let i = r.below(2); emit(&p.a[i], r, out, fuel) }
    Opt => if r.chance(60) { emit(&p.a[0], r, out, fuel) },
    FlatMap | PPFlatMap => { emit(&p.a[0], r, out, fuel); let i = 1 + r.below(2); emit(&p.a[i], r, out, fuel) }
    Repeat | Many0 | Many1 | ManyNM | Count | RepSep | Many0Sep | Many1Sep | ManyNMSep | CountSep | ChainL1 | ChainR1 | ScanR1 | ChainL0 | ChainR0 | RestL1 | RestR1 => {
      let n = r.below(5);
      let rest = matches!(p.k, RestL1 | RestR1);
      for i in 0..n {
        if (i > 0 || rest) && p.a.len() > 1 && r.chance(95) {
          emit(&p.a[1], r, out, fuel);
        }
        emit(&p.a[0], r, out, fuel);
      }
      if p.a.len() > 1 && r.chance(20) {
        emit(&p.a[1], r, out, fuel);
      }
    }
    _ => for c in &p.a { emit(c, r, out, fuel) },
  }
}

pub fn gen_input(p: &P, r: &mut Rng) -> Vec<char> {
  let mut x = vec![];
  if r.chance(80) {
    let mut fuel = 30;
    emit(p, r, &mut x, &mut fuel);
    x.truncate(14);
    if r.chance(35) && !x.is_empty() {
      let i = r.below(x.len());
      match r.below(3) {
        0 => { x.remove(i); }
        1 => x[i] = *r.pick(ALPHA),
        _ => x.truncate(i),
      }
    }
    if r.chance(50) {
      for _ in 0..r.below(3) {
        x.push(*r.pick(ALPHA));
      }
    }
  } else {
    for _ in 0..r.below(8) {
      x.push(*r.pick(ALPHA));
    }
  }
  x
}
