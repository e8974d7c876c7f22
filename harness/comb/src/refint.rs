// What every combinator means, written down once more and independently of the library.
use crate::term::K::*;
use crate::term::*;

#[derive(Clone, PartialEq, Debug)]
pub enum R {
  Ok(V, usize),
  Err(bool), // committed?
}

fn b(v: V) -> Box<V> {
  Box::new(v)
}
fn lower(c: char) -> char {
  if ('A'..='Z').contains(&c) { (c as u8 + 32) as char } else { c }
}

/// None: does not terminate (or takes too long to decide here)
pub fn eval(p: &P, x: &[char], at: usize, fuel: &mut i64) -> Option<R> {
  *fuel -= 1;
  if *fuel < 0 {
    return None;
  }
  let rest = &x[at..];
  let left = rest.len();
  let n = |i: usize| p.n[i];
  let single = |m: bool| if m { R::Ok(V::C(rest[0]), 1) } else { R::Err(false) };
  macro_rules! run { ($i:expr, $at:expr) => { eval(&p.a[$i], x, $at, fuel)? }; }
  macro_rules! class { ($f:expr) => {{ let f: fn(char) -> bool = $f; single(left > 0 && f(rest[0])) }}; }
  let range = |lo: char, hi: char| move |c: char| lo <= c && c <= hi;
  let digit = range('0', '9');
  Some(match p.k {
    Unit | Empty | Begin | PPUnit => R::Ok(V::U, 0),
    End => if left == 0 { R::Ok(V::U, 0) } else { R::Err(false) },
    Succ | SuccLazy | Pure | PPSucc | PPSuccLazy => R::Ok(V::N(n(0)), 0),
    Failed | FailedLazy | PPFailed | PPFailedLazy => R::Err(n(1) == 1),
    FailedC => R::Err(true),
    FailedU => R::Err(false),
    Any => single(left > 0),
    Elm => single(left > 0 && rest[0] == chr(n(0))),
    Pred => single(left > 0 && pred(n(0), rest[0])),
    Of => single(left > 0 && SETS[n(0)].chars().any(|c| c == rest[0])),
    NoneOf => single(left > 0 && !SETS[n(0)].chars().any(|c| c == rest[0])),
    OfArr => single(left > 0 && (['a', '1', 'é'][..n(0)].iter().any(|c| *c == rest[0]) == (n(1) == 0))),
    OfRange => {
      let inside = |c: char| match n(0) { 0 => c == 'a' || c == 'b', 1 => c == 'a' || c == 'b' || c == 'c', 2 => c as u32 >= 98, 3 => (c as u32) < 98, 4 => c as u32 <= 98, _ => true };
      single(left > 0 && (inside(rest[0]) == (n(1) == 0)))
    }
    In => single(left > 0 && chr(n(0)) as u32 <= rest[0] as u32 && rest[0] as u32 <= chr(n(1)) as u32),
    Until => single(left > 0 && chr(n(0)) as u32 <= rest[0] as u32 && (rest[0] as u32) < chr(n(1)) as u32),
    Space => class!(|c| c == ' ' || c == '\t'),
    MultiSpace => class!(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r'),
    Alpha => class!(|c| ('a'..='z').contains(&c) || ('A'..='Z').contains(&c)),
    AlphaDigit => class!(|c| ('a'..='z').contains(&c) || ('A'..='Z').contains(&c) || ('0'..='9').contains(&c)),
    Digit => single(left > 0 && digit(rest[0])),
    Digit19 => class!(|c| ('1'..='9').contains(&c)),
    Hex => class!(|c| ('a'..='f').contains(&c) || ('A'..='F').contains(&c) || ('0'..='9').contains(&c)),
    Oct => class!(|c| ('0'..='8').contains(&c)), // '8' is pinned by the repository's tests
    Seq | Tag | TagNC => {
      let want: Vec<char> = p.s.chars().collect();
      let same = |a: char, c: char| if p.k == TagNC { lower(a) == lower(c) } else { a == c };
      let val = if p.k == Seq { V::S(want.clone()) } else { V::Str(p.s.clone()) };
      let hit = (0..want.len()).take_while(|i| *i < left && same(want[*i], rest[*i])).count();
      if hit == want.len() { R::Ok(val, want.len()) }
      else { R::Err(hit > 0 && hit < left) }
    }
    Regex => match REGEXES[n(0)].1(rest) { Some(l) => R::Ok(V::Str(rest[..l].iter().collect()), l), None => R::Err(false) },
    Take => if left >= n(0) { R::Ok(V::S(rest[..n(0)].to_vec()), n(0)) } else { R::Err(false) },
    Skip => if left >= n(0) { R::Ok(V::U, n(0)) } else { R::Err(false) },
    While0 | While1 | WhileNM => {
      let (lo, hi) = match p.k { While0 => (0, usize::MAX), While1 => (1, usize::MAX), _ => (n(1), n(2)) };
      match rest.iter().position(|c| pred(n(0), *c)) {
        None => if lo == 0 { R::Ok(V::S(vec![]), 0) } else { R::Err(false) },
        Some(k) => {
          let len = rest[k..].iter().take_while(|c| pred(n(0), **c)).count();
          if lo <= len && len <= hi { R::Ok(V::S(rest[k..k + len].to_vec()), k + len) } else { R::Err(false) }
        }
      }
    }
    Till0 | Till1 => match rest.iter().position(|c| pred(n(0), *c)) {
      Some(k) => R::Ok(V::S(rest[..k + 1].to_vec()), k + 1),
      None => if p.k == Till0 { R::Ok(V::S(rest.to_vec()), left) } else { R::Err(false) },
    },
    Map | PPMap => match run!(0, at) { R::Ok(v, l) => R::Ok(V::T(b(v), b(V::N(n(0)))), l), e => e },
    FlatMap | PPFlatMap => match run!(0, at) {
      R::Ok(v, l) => {
        let i = if hash(&v) % 2 == 0 { 1 } else { 2 };
        match run!(i, at + l) { R::Ok(w, m) => R::Ok(w, l + m), R::Err(c) => R::Err(c || l > 0) }
      }
      e => e,
    },
    Filter | FilterNot => match run!(0, at) { R::Ok(v, l) => if vpred(n(0), &v) == (p.k == Filter) { R::Ok(v, l) } else { R::Err(false) }, e => e },
    PPFilter => match run!(0, at) { R::Ok(v, l) => if vpred(n(0), &v) { R::Ok(v, l) } else { R::Err(l > 0) }, e => e },
    MapRes => match run!(0, at) { R::Ok(v, l) => if vpred(n(0), &v) { R::Ok(V::T(b(v), b(V::U)), l) } else { R::Err(false) }, e => e },
    Exists => match run!(0, at) { R::Ok(..) => R::Ok(V::B(true), 0), _ => R::Ok(V::B(false), 0) },
    Not | OpNot => match run!(0, at) { R::Ok(..) => R::Err(false), _ => R::Ok(V::U, 0) },
    Opt => match run!(0, at) { R::Ok(v, l) => R::Ok(V::O(Some(b(v))), l), R::Err(_) => R::Ok(V::O(None), 0) },
    Attempt => match run!(0, at) { R::Err(_) => R::Err(false), o => o },
    Peek => match run!(0, at) { R::Ok(v, _) => R::Ok(v, 0), e => e },
    Discard => match run!(0, at) { R::Ok(_, l) => R::Ok(V::U, l), e => e },
    Collect => match run!(0, at) { R::Ok(_, l) => R::Ok(V::S(rest[..l].to_vec()), l), e => e },
    LastOffset => match run!(0, at) { R::Ok(_, l) => R::Ok(V::N((at + l).saturating_sub(1)), l), e => e },
    NextOffset => match run!(0, at) { R::Ok(_, l) => R::Ok(V::N(at + l), l), e => e },
    Log | Name | Cache | Lazy => run!(0, at),
    AndThen | OpAdd | SkipLeft | OpMul | SkipRight | OpSub => match run!(0, at) {
      R::Ok(v, l) => match run!(1, at + l) {
        R::Ok(w, m) => R::Ok(match p.k { AndThen | OpAdd => V::T(b(v), b(w)), SkipLeft | OpMul => w, _ => v }, l + m),
        e => e,
      },
      e => e,
    },
    Or | OpBar => match run!(0, at) { R::Err(false) => run!(1, at), o => o },
    Surround | SurroundFn => match run!(0, at) {
      R::Ok(_, l) => match run!(1, at + l) {
        R::Ok(v, m) => match run!(2, at + l + m) { R::Ok(_, k) => R::Ok(v, l + m + k), e => e },
        e => e,
      },
      e => e,
    },
    Repeat | Many0 | Many1 | ManyNM | Count | RepSep | Many0Sep | Many1Sep | ManyNMSep | CountSep => {
      let (lo, hi) = match p.k {
        Repeat | RepSep => range_bounds(&p.n),
        Many0 | Many0Sep => (0, None),
        Many1 | Many1Sep => (1, None),
        ManyNM | ManyNMSep => (n(0), Some(n(1))),
        _ => (n(0), Some(n(0))),
      };
      let sep = p.a.len() > 1 && !(p.k == RepSep && n(3) == 0);
      let mut vs = vec![];
      let mut len = 0;
      while hi.map_or(true, |h| vs.len() < h) {
        let before = len;
        if sep && !vs.is_empty() {
          match run!(1, at + len) { R::Ok(_, l) => len += l, _ => break }
        }
        match run!(0, at + len) { R::Ok(v, l) => { vs.push(v); len += l }, _ => break }
        if vs.len() > 1 && len == before && hi.is_none() {
          return None; // an unbounded repetition of nothing
        }
        *fuel -= 1;
        if *fuel < 0 { return None; }
      }
      if vs.len() < lo { R::Err(false) } else { R::Ok(V::L(vs), len) }
    }
    ChainL1 | ChainL0 | RestL1 | ChainR1 | ScanR1 | ChainR0 | RestR1 => {
      // operand, then (operator operand)*
      let rest_only = matches!(p.k, RestL1 | RestR1);
      let mut len = 0;
      let mut operands = vec![];
      let mut ops = vec![];
      let fail;
      if rest_only { operands.push(V::N(n(0))); }
      else {
        match run!(0, at) {
          R::Ok(v, l) => { operands.push(v); len = l; }
          R::Err(c) => return Some(if !c && matches!(p.k, ChainL0 | ChainR0) { R::Ok(V::N(n(0)), 0) } else { R::Err(c) }),
        }
      }
      loop {
        let start = len;
        match run!(1, at + len) {
          R::Err(c) => {
            // an operator that fails with commitment fails the whole
            if c { fail = true } else { fail = false }
            break;
          }
          R::Ok(o, l) => match run!(0, at + len + l) {
            R::Ok(v, m) => { ops.push(o); operands.push(v); len += l + m; }
            R::Err(c) => {
              // an operator without its operand: the operator is given back only if it took nothing
              fail = c || l > 0;
              break;
            }
          },
        }
        if len == start { return None; }
      }
      let default = matches!(p.k, ChainL0 | ChainR0);
      let _ = default;
      if fail { return Some(R::Err(true)); }
      let v = if matches!(p.k, ChainL1 | ChainL0 | RestL1) {
        let mut it = operands.into_iter();
        let first = it.next().unwrap();
        it.zip(ops).fold(first, |acc, (y, o)| V::X(b(o), b(acc), b(y)))
      } else {
        let last = operands.pop().unwrap();
        operands.into_iter().zip(ops).rev().fold(last, |acc, (x, o)| V::X(b(o), b(x), b(acc)))
      };
      R::Ok(v, len)
    }
  })
}
