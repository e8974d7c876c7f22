// Executable form of the parser contracts: random parser terms, run by the library and by an independent interpreter.
#[path = "../../common/mod.rs"]
mod common;
mod direct;
mod refint;
mod term;
use common::*;
use oni_comb_parser_rs::prelude::*;
use refint::*;
use term::*;

fn describe(p: &P, inputs: &[Vec<char>], runs: &[(usize, usize, usize)]) -> String {
  let mut s = format!("parser {} on", show(p));
  for (i, off, end) in runs {
    let x: String = inputs[*i][..*end].iter().collect();
    s.push_str(&format!(" {:?}@{}", x, off));
  }
  s
}

/// runs the parser object over all runs (buffer, offset, end) in order; the first disagreement is returned
fn run_case(prop: &str, p: &P, inputs: &[Vec<char>], runs: &[(usize, usize, usize)]) -> Result<(u64, u64), (usize, String)> {
  let mut nontrivial = 0;
  let mut n = 0;
  let parser = match guard(|| build(p)) {
    Ok(x) => x,
    Err(m) => return Err((0, format!("building the parser: {}", m))),
  };
  for (k, (i, off, end)) in runs.iter().enumerate() {
    let buf: &[char] = &inputs[*i][..*end];
    let mut fuel = 20_000i64;
    let want = match eval(p, buf, *off, &mut fuel) {
      Some(w) => w,
      None => continue, // does not terminate by definition (repetition of nothing), or too long
    };
    n += 1;
    let got = match guard(|| {
      let st = ParseState::new(buf, *off);
      let r = parser.run(&st);
      let x = match &r {
        ParseResult::Success { value, length } => R::Ok(value.clone(), *length),
        ParseResult::Failure { committed_status, error } => {
          // errors can be inspected
          let _ = format!("{} {:?}", error, error);
          let part = error.input();
          if let Some(x) = part {
            let (a, b) = (buf.as_ptr() as usize, buf.as_ptr() as usize + buf.len() * 4);
            let (c, d) = (x.as_ptr() as usize, x.as_ptr() as usize + x.len() * 4);
            if !x.is_empty() && !(a <= c && d <= b) {
              panic!("the error reports input outside the input");
            }
          }
          let _ = error.input_string();
          let one = error.is_expect() as u8 + error.is_custom() as u8 + error.is_mismatch() as u8 + error.is_conversion() as u8 + error.is_in_complete() as u8;
          if one != 1 {
            panic!("the error is of {} kinds", one);
          }
          R::Err(committed_status.is_committed())
        }
      };
      // the observers agree with the result
      let (s, f, c) = (r.is_success(), r.is_failure(), r.committed_status());
      let okay = match &x {
        R::Ok(v, _) => s && !f && c.is_none() && r.clone().success().as_ref() == Some(v) && r.clone().failure().is_none() && r.clone().to_result().ok().as_ref() == Some(v),
        R::Err(b) => !s && f && c.map(|c| c.is_committed()) == Some(*b) && r.clone().success().is_none() && r.clone().failure().is_some() && r.to_result().is_err(),
      };
      if !okay {
        panic!("success()/failure()/to_result() do not describe the result");
      }
      if *off == 0 {
        let a = parser.parse(buf);
        let same = match (&a, &x) {
          (ParseResult::Success { value, length }, R::Ok(v, l)) => value == v && length == l,
          (ParseResult::Failure { committed_status, .. }, R::Err(c)) => committed_status.is_committed() == *c,
          _ => false,
        };
        let b = match (parser.parse_as_result(buf), &x) {
          (Ok(v), R::Ok(w, _)) => v == *w,
          (Err(_), R::Err(_)) => true,
          _ => false,
        };
        if !same || !b {
          panic!("parse, parse_as_result and run disagree: {:?} / {:?}", a, x);
        }
      }
      x
    }) {
      Ok(x) => x,
      Err(m) => return Err((k, m)),
    };
    match &got {
      R::Ok(_, l) => {
        if *l > buf.len() - *off {
          return Err((k, format!("consumed {} of {} remaining elements", l, buf.len() - off)));
        }
        if *l > 0 {
          nontrivial += 1;
        }
      }
      _ => nontrivial += 1,
    }
    if prop == "C10" {
      // only containment and absence of panics belong to C10
      continue;
    }
    if got != want {
      return Err((k, format!("got {:?}, expected {:?}", got, want)));
    }
  }
  Ok((n, nontrivial))
}

fn shrink(prop: &str, p: &P, inputs: &[Vec<char>], runs: &[(usize, usize, usize)]) -> (P, Vec<Vec<char>>, Vec<(usize, usize, usize)>, String) {
  let fails = |p: &P, i: &[Vec<char>], r: &[(usize, usize, usize)]| run_case(prop, p, i, r).err().map(|e| e.1);
  let (mut p, mut inputs, mut runs) = (p.clone(), inputs.to_vec(), runs.to_vec());
  let mut msg = fails(&p, &inputs, &runs).unwrap_or_default();
  for _ in 0..60 {
    let mut cand: Vec<(P, Vec<Vec<char>>, Vec<(usize, usize, usize)>)> = vec![];
    for k in 0..runs.len() {
      if runs.len() > 1 {
        let mut r = runs.clone();
        r.remove(k);
        cand.push((p.clone(), inputs.clone(), r));
      }
    }
    for q in smaller(&p) {
      cand.push((q, inputs.clone(), runs.clone()));
    }
    for (k, &(i, off, end)) in runs.iter().enumerate() {
      let _ = i;
      if end > off {
        let mut r = runs.clone();
        r[k].2 = end - 1;
        cand.push((p.clone(), inputs.clone(), r));
      }
    }
    if runs.len() == 1 {
      let (i, off, end) = runs[0];
      for c in 0..end {
        let mut x = inputs.clone();
        x[i].remove(c);
        cand.push((p.clone(), x, vec![(i, if c < off { off - 1 } else { off }, end - 1)]));
      }
    }
    let mut done = true;
    for (q, i, r) in cand {
      if let Some(m) = fails(&q, &i, &r) {
        p = q;
        inputs = i;
        runs = r;
        msg = m;
        done = false;
        break;
      }
    }
    if done {
      break;
    }
  }
  (p, inputs, runs, msg)
}

fn main() {
  let mut rep = Report::from_args();
  let prop = rep.prop.clone();
  let mut rng = Rng::new(rep.seed);
  direct::run(&mut rep, &prop, &mut rng);
  let roots = roots(&prop);
  let mut round = 0usize;
  let min_rounds = if rep.thorough { 0 } else { 2000 };
  while !roots.is_empty() && (rep.more() || (round < min_rounds && rep.violations.is_empty())) {
    let root = roots[round % roots.len()];
    round += 1;
    let depth = 1 + rng.below(3);
    let p = gen_root(root, depth, &mut rng);
    let mut inputs = vec![];
    let mut runs = vec![];
    for i in 0..3 {
      let mut x = gen_input(&p, &mut rng);
      let lead = if rng.chance(30) { 1 + rng.below(3) } else { 0 };
      for _ in 0..lead {
        x.insert(0, *rng.pick(ALPHA));
      }
      let end = x.len();
      runs.push((i, lead, end));
      if rng.chance(40) {
        let off = rng.below(end + 1);
        runs.push((i, off, end));
      }
      if rng.chance(30) {
        // a prefix of the same buffer
        let e2 = rng.below(end + 1);
        runs.push((i, rng.below(e2 + 1), e2));
      }
      inputs.push(x);
    }
    if rng.chance(50) {
      let a = runs[rng.below(runs.len())];
      runs.push(a);
    }
    if round % 64 == 0 || rep.trace.is_some() {
      rep.begin(|| describe(&p, &inputs, &runs), true);
    }
    rep.current(String::new());
    if rep.trace.is_some() {
      rep.current(describe(&p, &inputs, &runs));
    } else {
      let q = p.clone();
      rep.current(format!("parser {} on {:?}", show(&q), inputs.iter().map(|x| x.iter().collect::<String>()).collect::<Vec<_>>()));
    }
    let r = run_case(&prop, &p, &inputs, &runs);
    match r {
      Ok((n, nt)) => {
        rep.evaluations += n.saturating_sub(1);
        if n > 0 {
          rep.count(&describe(&p, &inputs, &runs), nt > 0);
        }
      }
      Err(_) => {
        let (p, i, r, m) = shrink(&prop, &p, &inputs, &runs);
        rep.evaluations += 1;
        rep.violate(describe(&p, &i, &r), m);
      }
    }
    rep.group(&format!("{:?}", root));
  }
  rep.idle();
  rep.finish();
}
