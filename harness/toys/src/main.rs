// executable contracts of the Toys language (C21: text to tree, C23: tree to value), against an independent
// printer and an independent evaluator
#[path = "../../common/mod.rs"]
mod common;
#[path = "/repo/toys/src/environment.rs"]
mod environment;
#[path = "/repo/toys/src/expr.rs"]
mod expr;
#[path = "/repo/toys/src/interpreter.rs"]
mod interpreter;
#[path = "/repo/toys/src/labelled_parameter.rs"]
mod labelled_parameter;
#[path = "/repo/toys/src/operator.rs"]
mod operator;
#[path = "/repo/toys/src/parsers.rs"]
mod parsers;
#[path = "/repo/toys/src/values.rs"]
mod values;

use common::*;
use expr::Expr;
use interpreter::Interpreter;
use labelled_parameter::LabelledParameter;
use oni_comb_parser_rs::prelude::ParserRunner;
use operator::Operator as O;
use std::collections::HashMap;
use std::io::{Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use values::Value;

// ---- programs as the generator sees them
#[derive(Clone, Debug, PartialEq)]
enum E {
  Int(i64),
  Str(String),
  Bool(bool),
  Arr(Vec<E>),
  Var(String),
  Bin(usize, Box<E>, Box<E>),
  Par(Box<E>),
  Call(String, Vec<E>),
  Lab(String, Vec<(String, E)>),
}
#[derive(Clone, Debug, PartialEq)]
enum S {
  Expr(E),
  Print(E),
  Set(String, E),
  Block(Vec<S>),
  If(E, Box<S>, Option<Box<S>>),
  While(E, Box<S>),
  For(String, E, E, Box<S>),
}
#[derive(Clone, Debug, PartialEq)]
enum D {
  Global(String, E),
  Fn(String, Vec<String>, Vec<S>),
}
const OPS: [&str; 13] = ["*", "/", "%", "+", "-", "<", "<=", ">", ">=", "==", "!=", "&&", "||"];
fn level(op: usize) -> usize {
  match op {
    0 | 1 => 3,
    2 => 2,
    3 | 4 => 1,
    _ => 0,
  }
}
fn elevel(e: &E) -> usize {
  match e {
    E::Bin(op, ..) => level(*op),
    _ => 4,
  }
}
fn at(e: E, l: usize) -> Box<E> {
  Box::new(if elevel(&e) < l { E::Par(Box::new(e)) } else { e })
}
/// a binary expression, with the parentheses its operands need
fn bin(op: usize, l: E, r: E) -> E {
  E::Bin(op, at(l, level(op)), at(r, level(op) + 1))
}

// ---- the tree the text stands for
fn op(o: usize) -> O {
  [O::Multiply, O::Divide, O::Mod, O::Add, O::Subtract, O::LessThan, O::LessOrEqual, O::GreaterThan, O::GreaterOrEqual, O::EqualEqual, O::NotEqual, O::And, O::Or][o].clone()
}
fn tree(e: &E) -> Rc<Expr> {
  Rc::new(match e {
    E::Int(n) => Expr::IntegerLiteral(*n),
    E::Str(s) => Expr::StringLiteral(s.clone()),
    E::Bool(b) => Expr::BoolLiteral(*b),
    E::Arr(v) => Expr::ArrayLiteral(v.iter().map(tree).collect()),
    E::Var(s) => Expr::Symbol(s.clone()),
    E::Bin(o, l, r) => Expr::Binary(op(*o), tree(l), tree(r)),
    E::Par(e) => Expr::Parenthesized(tree(e)),
    E::Call(f, a) => Expr::FunctionCall(f.clone(), a.iter().map(tree).collect()),
    E::Lab(f, a) => Expr::LabelledCall(f.clone(), a.iter().map(|(n, e)| LabelledParameter { name: n.clone(), parameter: tree(e) }).collect()),
  })
}
fn stree(s: &S) -> Rc<Expr> {
  match s {
    S::Expr(e) => tree(e),
    S::Print(e) => Rc::new(Expr::Println(tree(e))),
    S::Set(n, e) => Rc::new(Expr::Assignment(n.clone(), tree(e))),
    S::Block(v) => Rc::new(Expr::Block(v.iter().map(stree).collect())),
    S::If(c, t, e) => Rc::new(Expr::If(tree(c), stree(t), e.as_ref().map(|e| stree(e)))),
    S::While(c, b) => Rc::new(Expr::While(tree(c), stree(b))),
    S::For(n, a, b, s) => {
      let var = || Rc::new(Expr::Symbol(n.clone()));
      let step = Rc::new(Expr::Assignment(n.clone(), Rc::new(Expr::Binary(O::Add, var(), Rc::new(Expr::IntegerLiteral(1))))));
      Rc::new(Expr::Block(vec![
        Rc::new(Expr::Assignment(n.clone(), tree(a))),
        Rc::new(Expr::While(Rc::new(Expr::Binary(O::LessThan, var(), tree(b))), Rc::new(Expr::Block(vec![stree(s), step])))),
      ]))
    }
  }
}
fn program_tree(p: &[D]) -> Rc<Expr> {
  Rc::new(Expr::Program(
    p.iter()
      .map(|d| {
        Rc::new(match d {
          D::Global(n, e) => Expr::GlobalVariableDefinition(n.clone(), tree(e)),
          D::Fn(n, ps, b) => Expr::FunctionDefinition(n.clone(), ps.clone(), Rc::new(Expr::Block(b.iter().map(stree).collect()))),
        })
      })
      .collect(),
  ))
}

// ---- the text, with blanks wherever they may stand
struct Out<'a> {
  r: &'a mut Rng,
  o: String,
  loose: bool,
}
impl<'a> Out<'a> {
  fn b(&mut self) {
    if self.loose {
      for _ in 0..[0, 0, 1, 1, 2][self.r.below(5)] {
        let c = *self.r.pick(&[' ', ' ', '\n', '\t', '\r']);
        self.o.push(c);
      }
    }
  }
  fn b1(&mut self) {
    let c = *self.r.pick(&[' ', ' ', '\n', '\t', '\r']);
    self.o.push(c);
    self.b();
  }
  fn t(&mut self, s: &str) {
    self.b();
    self.o.push_str(s);
    self.b();
  }
  fn str(&mut self, s: &str) {
    self.o.push('"');
    for c in s.chars() {
      let k = self.r.below(6);
      let named = match c {
        '\\' => Some('\\'),
        '"' => Some('"'),
        '/' => Some('/'),
        '\x08' => Some('b'),
        '\x0C' => Some('f'),
        '\n' => Some('n'),
        '\r' => Some('r'),
        '\t' => Some('t'),
        _ => None,
      };
      if k == 0 {
        let mut u = [0u16; 2];
        for u in c.encode_utf16(&mut u) {
          self.o.push_str(&if self.r.chance(50) { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
        }
      } else if let (Some(n), true) = (named, k < 4 || c == '\\' || c == '"') {
        self.o.push('\\');
        self.o.push(n);
      } else {
        self.o.push(c);
      }
    }
    self.o.push('"');
  }
  fn e(&mut self, e: &E) {
    match e {
      E::Int(n) => {
        self.b();
        self.o.push_str(&n.to_string());
        self.b()
      }
      E::Str(s) => self.str(s),
      E::Bool(v) => self.t(if *v { "true" } else { "false" }),
      E::Arr(v) => {
        self.t("[");
        self.list(v);
        self.t("]")
      }
      E::Var(s) => self.t(s),
      E::Bin(o, l, r) => {
        self.e(l);
        self.t(OPS[*o]);
        self.e(r)
      }
      E::Par(e) => {
        self.t("(");
        self.e(e);
        self.t(")")
      }
      E::Call(f, a) => {
        self.t(f);
        self.t("(");
        self.list(a);
        self.t(")")
      }
      E::Lab(f, a) => {
        self.t(f);
        self.t("[");
        for (i, (n, e)) in a.iter().enumerate() {
          if i > 0 {
            self.t(",");
          }
          self.t(n);
          self.t("=");
          self.e(e);
        }
        self.t("]")
      }
    }
  }
  fn list(&mut self, v: &[E]) {
    for (i, e) in v.iter().enumerate() {
      if i > 0 {
        self.t(",");
      }
      self.e(e);
    }
  }
  fn s(&mut self, s: &S) {
    match s {
      S::Expr(e) => {
        self.b();
        self.e(e);
        self.t(";")
      }
      S::Print(e) => {
        self.t("println");
        self.t("(");
        self.e(e);
        self.t(")");
        self.t(";")
      }
      S::Set(n, e) => {
        self.t(n);
        self.t("=");
        self.e(e);
        self.t(";")
      }
      S::Block(v) => {
        self.t("{");
        for s in v {
          self.s(s);
        }
        self.t("}")
      }
      S::If(c, t, e) => {
        self.t("if");
        self.t("(");
        self.e(c);
        self.t(")");
        self.s(t);
        if let Some(e) = e {
          self.t("else");
          self.b1();
          self.s(e);
        }
      }
      S::While(c, b) => {
        self.t("while");
        self.t("(");
        self.e(c);
        self.t(")");
        self.s(b)
      }
      S::For(n, a, b, s) => {
        self.t("for");
        self.t("(");
        self.t(n);
        self.b1();
        self.t("in");
        self.b1();
        self.e(a);
        self.b1();
        self.t("to");
        self.b1();
        self.e(b);
        self.t(")");
        self.s(s)
      }
    }
  }
  fn p(&mut self, p: &[D]) {
    for d in p {
      match d {
        D::Global(n, e) => {
          self.t("global");
          self.b1();
          self.t(n);
          self.t("=");
          self.e(e);
          self.t(";")
        }
        D::Fn(n, ps, b) => {
          self.t("fn");
          self.b1();
          self.t(n);
          self.t("(");
          for (i, p) in ps.iter().enumerate() {
            if i > 0 {
              self.t(",");
            }
            self.t(p);
          }
          self.t(")");
          self.s(&S::Block(b.clone()))
        }
      }
    }
  }
}

// ---- C21: any tree of the grammar, whether or not it makes sense to run
fn name(r: &mut Rng) -> String {
  loop {
    let mut s = String::new();
    s.push(*r.pick(&['a', 'b', 'x', 'Z', '_', 'n', 'm', 'w', 'i', 't', 'e', 'g', 'p', 'f']));
    for _ in 0..r.below(5) {
      s.push(*r.pick(&['a', 'B', '_', '0', '9', 'z', 'n', 'i', 'f', 'o']));
    }
    if !["if", "for", "while", "else", "println", "true", "false", "in", "to", "fn", "global"].iter().any(|k| s.starts_with(k)) {
      return s;
    }
  }
}
fn text(r: &mut Rng) -> String {
  (0..r.below(5)).map(|_| *r.pick(&['a', 'é', '日', '😀', ' ', '\\', '"', '/', '\n', '\t', '\r', '\x08', '\x0C', '\u{1}', '\'', '(', ';', 'u', 'n', '0', '\u{FFFF}', '\u{10FFFF}'])).collect()
}
fn any_int(r: &mut Rng) -> i64 {
  match r.below(8) {
    0 => *r.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 10, 100]),
    1 => r.next() as i64,
    _ => r.range(-99, 99),
  }
}
fn any_expr(r: &mut Rng, d: usize) -> E {
  match if d == 0 { r.below(5) } else { r.below(14) } {
    0 | 1 => E::Int(any_int(r)),
    2 => E::Var(name(r)),
    3 => E::Str(text(r)),
    4 => E::Bool(r.chance(50)),
    5 => E::Arr((0..r.below(4)).map(|_| any_expr(r, d - 1)).collect()),
    6 => E::Par(Box::new(any_expr(r, d - 1))),
    7 => E::Call(name(r), (0..r.below(4)).map(|_| any_expr(r, d - 1)).collect()),
    8 => E::Lab(name(r), (0..r.below(3) + 1).map(|_| (name(r), any_expr(r, d - 1))).collect()),
    _ => {
      let (a, b) = (any_expr(r, d - 1), any_expr(r, d - 1));
      bin(r.below(13), a, b)
    }
  }
}
fn any_stmt(r: &mut Rng, d: usize) -> S {
  match if d == 0 { r.below(3) } else { r.below(9) } {
    0 => S::Expr(any_expr(r, d)),
    1 => S::Print(any_expr(r, d)),
    2 => S::Set(name(r), any_expr(r, d)),
    3 => S::Block((0..r.below(4)).map(|_| any_stmt(r, d - 1)).collect()),
    4 => S::If(any_expr(r, d), Box::new(any_stmt(r, d - 1)), None),
    5 | 6 => {
      // an else belongs to the nearest if: the branch before it is a block
      let t = S::Block((0..r.below(3)).map(|_| any_stmt(r, d - 1)).collect());
      S::If(any_expr(r, d), Box::new(t), Some(Box::new(any_stmt(r, d - 1))))
    }
    7 => S::While(any_expr(r, d), Box::new(any_stmt(r, d - 1))),
    _ => S::For(name(r), any_expr(r, d), any_expr(r, d), Box::new(any_stmt(r, d - 1))),
  }
}
fn parse(t: &str) -> Result<Rc<Expr>, String> {
  let input = t.chars().collect::<Vec<_>>();
  let r = parsers::program().parse(&input).to_result().map_err(|e| format!("rejected: {:?}", e));
  r
}
fn check_tree(t: &str, want: &Rc<Expr>) -> Result<(), String> {
  let got = parse(t)?;
  if got != *want {
    return Err(format!("read as {:?}, stands for {:?}", got, want));
  }
  Ok(())
}
fn any_program(r: &mut Rng, k: usize) -> Vec<D> {
  match k {
    0 => {
      let d = r.below(4) + 1;
      vec![D::Global(name(r), any_expr(r, d))]
    }
    1 => {
      let d = [1, 1, 2, 3][r.below(4)];
      vec![D::Fn(name(r), vec![], vec![any_stmt(r, d)])]
    }
    _ => (0..r.below(4))
      .map(|_| {
        if r.chance(40) {
          D::Global(name(r), any_expr(r, 2))
        } else {
          D::Fn(name(r), (0..r.below(4)).map(|_| name(r)).collect(), (0..r.below(4)).map(|_| any_stmt(r, 1)).collect())
        }
      })
      .collect(),
  }
}
fn c21(rep: &mut Report) {
  let mut r = Rng::new(rep.seed);
  // every pair and triple of operators, without blanks
  for a in 0..13 {
    for b in 0..13 {
      for c in 0..13 {
        if c > 0 && !rep.thorough && (a + b + c) % 3 != (rep.seed as usize) % 3 {
          continue;
        }
        let t = format!("global x=a{}b{}c{}d;", OPS[a], OPS[b], OPS[c]);
        let want = climb(&[a, b, c]);
        rep.case(t.clone(), true, || check_tree(&t, &program_tree(&[D::Global("x".into(), want)])));
        rep.group("operator triples");
      }
    }
  }
  while rep.more() {
    // the parsers compile their regular expressions again and again: run a batch on all cores
    let batch: Vec<(usize, Vec<D>, String)> = (0..64)
      .map(|_| {
        let k = r.below(3);
        let p = any_program(&mut r, k);
        let loose = r.chance(70);
        let mut o = Out { r: &mut r, o: String::new(), loose };
        o.p(&p);
        (k, p, o.o)
      })
      .collect();
    rep.begin(|| batch.iter().map(|b| b.2.clone()).collect::<Vec<_>>().join("\n----\n"), true);
    let rs: Vec<Result<(), String>> = std::thread::scope(|sc| {
      let hs: Vec<_> = batch
        .chunks(8)
        .map(|c| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || c.iter().map(|(_, p, t)| guard(|| check_tree(t, &program_tree(p))).and_then(|r| r)).collect::<Vec<_>>()).unwrap())
        .collect();
      hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    for ((k, p, t), got) in batch.into_iter().zip(rs) {
      rep.case(t, p.len() > 0, || got);
      rep.group(["expressions", "statements", "programs"][k]);
    }
  }
}
/// the tree of a b c d joined by three operators: tighter levels first, left to right
fn climb(ops: &[usize]) -> E {
  let mut items: Vec<E> = ["a", "b", "c", "d"][..ops.len() + 1].iter().map(|s| E::Var(s.to_string())).collect();
  let mut ops = ops.to_vec();
  for l in (0..4).rev() {
    let mut i = 0;
    while i < ops.len() {
      if level(ops[i]) == l {
        let b = items.remove(i + 1);
        let a = std::mem::replace(&mut items[i], E::Int(0));
        items[i] = E::Bin(ops[i], Box::new(a), Box::new(b));
        ops.remove(i);
      } else {
        i += 1;
      }
    }
  }
  items.pop().unwrap()
}

// ---- C23: the evaluator
#[derive(Clone, Debug, PartialEq)]
enum V {
  I(i64),
  B(bool),
  S(String),
  A(Vec<V>),
}
impl V {
  fn show(&self) -> String {
    match self {
      V::I(n) => n.to_string(),
      V::B(b) => b.to_string(),
      V::S(s) => s.clone(),
      V::A(v) => format!("[{}]", v.iter().map(|v| v.show()).collect::<Vec<_>>().join(",")),
    }
  }
  fn value(&self) -> Value {
    match self {
      V::I(n) => Value::Int(*n),
      V::B(b) => Value::Bool(*b),
      V::S(s) => Value::String(s.clone()),
      V::A(v) => Value::Array(v.iter().map(|v| v.value()).collect()),
    }
  }
}
struct Run<'a> {
  fns: HashMap<String, (&'a [String], &'a [S])>,
  frames: Vec<HashMap<String, V>>,
  out: String,
  fuel: usize,
}
type R<T> = Option<T>;
impl<'a> Run<'a> {
  fn get(&self, n: &str) -> R<V> {
    self.frames.iter().rev().find_map(|f| f.get(n)).cloned()
  }
  fn set(&mut self, n: &str, v: V) {
    match self.frames.iter_mut().rev().find(|f| f.contains_key(n)) {
      Some(f) => f.insert(n.to_string(), v),
      None => self.frames.last_mut().unwrap().insert(n.to_string(), v),
    };
  }
  fn int(&mut self, e: &E) -> R<i64> {
    match self.e(e)? {
      V::I(n) => Some(n),
      _ => None,
    }
  }
  fn bool(&mut self, e: &E) -> R<bool> {
    match self.e(e)? {
      V::B(b) => Some(b),
      _ => None,
    }
  }
  fn call(&mut self, f: &str, bind: Vec<(String, V)>) -> R<V> {
    let (_, body) = *self.fns.get(f)?;
    if self.frames.len() > 40 {
      return None;
    }
    self.frames.push(bind.into_iter().collect());
    let v = self.block(body);
    self.frames.pop();
    v
  }
  fn e(&mut self, e: &E) -> R<V> {
    self.fuel = self.fuel.checked_sub(1)?;
    Some(match e {
      E::Int(n) => V::I(*n),
      E::Str(s) => V::S(s.clone()),
      E::Bool(b) => V::B(*b),
      E::Arr(v) => V::A(v.iter().map(|e| self.e(e)).collect::<R<Vec<V>>>()?),
      E::Var(n) => self.get(n)?,
      E::Par(e) => self.e(e)?,
      E::Bin(o, l, r) if *o >= 11 => {
        let (l, r) = (self.bool(l)?, self.bool(r)?);
        V::B(if *o == 11 { l & r } else { l | r })
      }
      E::Bin(o, l, r) => {
        let (l, r) = (self.int(l)?, self.int(r)?);
        match o {
          0 => V::I(l.checked_mul(r)?),
          1 => V::I(l.checked_div(r)?),
          2 => V::I(l.checked_rem(r)?),
          3 => V::I(l.checked_add(r)?),
          4 => V::I(l.checked_sub(r)?),
          5 => V::B(l < r),
          6 => V::B(l <= r),
          7 => V::B(l > r),
          8 => V::B(l >= r),
          9 => V::B(l == r),
          _ => V::B(l != r),
        }
      }
      E::Call(f, a) => {
        let vs = a.iter().map(|e| self.e(e)).collect::<R<Vec<V>>>()?;
        let ps = self.fns.get(f)?.0;
        self.call(f, ps.iter().cloned().zip(vs).collect())?
      }
      E::Lab(f, a) => {
        let mut b = vec![];
        for (n, e) in a {
          b.push((n.clone(), self.e(e)?));
        }
        self.call(f, b)?
      }
    })
  }
  fn block(&mut self, v: &[S]) -> R<V> {
    let mut last = None;
    for s in v {
      last = Some(self.s(s)?);
    }
    last
  }
  fn s(&mut self, s: &S) -> R<V> {
    self.fuel = self.fuel.checked_sub(1)?;
    match s {
      S::Expr(e) => self.e(e),
      S::Print(e) => {
        let v = self.e(e)?;
        self.out.push_str(&v.show());
        self.out.push('\n');
        Some(v)
      }
      S::Set(n, e) => {
        let v = self.e(e)?;
        self.set(n, v.clone());
        Some(v)
      }
      S::Block(v) => self.block(v),
      S::If(c, t, e) => {
        if self.bool(c)? {
          self.s(t)
        } else {
          match e {
            Some(e) => self.s(e),
            None => Some(V::B(true)),
          }
        }
      }
      S::While(c, b) => {
        while self.bool(c)? {
          self.s(b)?;
        }
        Some(V::B(true))
      }
      S::For(n, a, b, s) => {
        let a = self.e(a)?;
        self.set(n, a);
        loop {
          let to = self.int(b)?;
          match self.get(n)? {
            V::I(i) if i < to => (),
            V::I(_) => break,
            _ => return None,
          }
          self.s(s)?;
          match self.get(n)? {
            V::I(i) => self.set(n, V::I(i.checked_add(1)?)),
            _ => return None,
          }
        }
        Some(V::B(true))
      }
    }
  }
}
fn run(p: &[D]) -> R<(V, String, HashMap<String, V>)> {
  let mut m = Run { fns: HashMap::new(), frames: vec![HashMap::new()], out: String::new(), fuel: 20_000 };
  for d in p {
    match d {
      D::Global(n, e) => {
        let v = m.e(e)?;
        m.frames[0].insert(n.clone(), v);
      }
      D::Fn(n, ps, b) => {
        m.fns.insert(n.clone(), (ps, b));
      }
    }
  }
  let (_, body) = *m.fns.get("main")?;
  let v = m.block(body)?;
  Some((v, m.out, m.frames.pop().unwrap()))
}

// ---- generated programs that make sense (mostly): names carry their type
#[derive(Clone, Copy, PartialEq)]
enum T {
  I,
  B,
  S,
  A,
}
struct Gen<'a> {
  r: &'a mut Rng,
  fns: Vec<(String, Vec<(String, T)>, T)>,
  count: usize,
  vars: Vec<(String, T)>,
}
impl<'a> Gen<'a> {
  fn ty(&mut self) -> T {
    *self.r.pick(&[T::I, T::I, T::I, T::B, T::S, T::A])
  }
  fn fresh(&mut self, t: T) -> String {
    // few names, so that frames shadow and overwrite each other; the first letter tells the type
    let k = self.r.below(3);
    format!("{}{}", match t { T::I => ["n", "k", "v"][k], T::B => ["p", "q", "b"][k], T::S => ["s", "r", "c"][k], T::A => ["a", "l", "z"][k] }, ["", "1", "_x"][self.r.below(3)])
  }
  fn counter(&mut self) -> String {
    self.count += 1;
    format!("h{}", self.count)
  }
  fn var(&mut self, t: T) -> Option<E> {
    let c: Vec<&(String, T)> = self.vars.iter().filter(|v| v.1 == t).collect();
    if c.is_empty() {
      None
    } else {
      Some(E::Var(c[self.r.below(c.len())].0.clone()))
    }
  }
  fn e(&mut self, t: T, d: usize) -> E {
    if self.r.chance(35) {
      if let Some(v) = self.var(t) {
        return v;
      }
    }
    if d > 0 && self.r.chance(25) {
      let c: Vec<usize> = (0..self.fns.len()).filter(|i| self.fns[*i].2 == t).collect();
      if !c.is_empty() {
        let i = c[self.r.below(c.len())];
        let f = self.fns[i].clone();
        let mut args: Vec<(String, E)> = f.1.iter().map(|(n, t)| (n.clone(), self.e(*t, d - 1))).collect();
        if self.r.chance(40) && !args.is_empty() {
          let k = self.r.below(args.len());
          args.rotate_left(k);
          return E::Lab(f.0, args);
        }
        return E::Call(f.0, args.into_iter().map(|a| a.1).collect());
      }
    }
    if d > 0 && self.r.chance(10) {
      return E::Par(Box::new(self.e(t, d - 1)));
    }
    match t {
      T::I if d == 0 || self.r.chance(25) => E::Int(if self.r.chance(3) { any_int(self.r) } else { self.r.range(-9, 30) }),
      T::I => {
        let o = self.r.below(5);
        let a = self.e(T::I, d - 1);
        let b = if (o == 1 || o == 2) && self.r.chance(80) { E::Int(self.r.range(1, 7)) } else { self.e(T::I, d - 1) };
        bin(o, a, b)
      }
      T::B if d == 0 || self.r.chance(15) => E::Bool(self.r.chance(50)),
      T::B => {
        if self.r.chance(60) {
          let o = 5 + self.r.below(6);
          let (a, b) = (self.e(T::I, d - 1), self.e(T::I, d - 1));
          bin(o, at_add(a), at_add(b))
        } else {
          let o = 11 + self.r.below(2);
          // the operands do not call, so that it does not matter whether the second one is evaluated at all
          let f = std::mem::take(&mut self.fns);
          let (a, b) = (self.e(T::B, d - 1), self.e(T::B, d - 1));
          self.fns = f;
          bin(o, a, b)
        }
      }
      T::S => E::Str(text(self.r)),
      T::A => {
        let n = self.r.below(4);
        E::Arr((0..n).map(|_| { let t = if d > 0 && self.r.chance(20) { self.ty() } else { T::I }; self.e(t, d.saturating_sub(1)) }).collect())
      }
    }
  }
  fn assign(&mut self, keep: bool) -> S {
    let t = self.ty();
    let n = match self.var(t) {
      Some(E::Var(v)) if !v.starts_with('h') && self.r.chance(50) => v,
      _ => self.fresh(t),
    };
    let e = self.e(t, 3);
    if keep && !self.vars.contains(&(n.clone(), t)) {
      self.vars.push((n.clone(), t));
    }
    S::Set(n, e)
  }
  fn s(&mut self, d: usize, keep: bool) -> S {
    match if d == 0 { self.r.below(6) } else { self.r.below(11) } {
      0 | 1 | 2 => self.assign(keep),
      3 | 4 => {
        let t = self.ty();
        S::Print(self.e(t, 3))
      }
      5 => {
        let t = self.ty();
        S::Expr(self.e(t, 2))
      }
      6 => S::Block(self.body(d - 1, keep)),
      7 => {
        let c = self.e(T::B, 2);
        S::If(c, Box::new(self.sub(d - 1)), None)
      }
      8 => {
        let c = self.e(T::B, 2);
        let t = S::Block(self.body(d - 1, false));
        S::If(c, Box::new(t), Some(Box::new(self.sub(d - 1))))
      }
      9 => {
        let h = self.counter();
        let (a, b) = (self.e(T::I, 1), self.e(T::I, 2));
        self.vars.push((h.clone(), T::I));
        let s = self.sub(d - 1);
        S::For(h, a, b, Box::new(s))
      }
      _ => {
        let h = self.counter();
        let n = self.r.range(0, 5);
        self.vars.push((h.clone(), T::I));
        let mut b = self.body(d - 1, false);
        b.push(S::Set(h.clone(), bin(3, E::Var(h.clone()), E::Int(1))));
        S::Block(vec![S::Set(h.clone(), E::Int(0)), S::While(bin(5, E::Var(h), E::Int(n)), Box::new(S::Block(b)))])
      }
    }
  }
  fn sub(&mut self, d: usize) -> S {
    let n = self.vars.len();
    let s = self.s(d, false);
    self.vars.truncate(n);
    s
  }
  fn body(&mut self, d: usize, keep: bool) -> Vec<S> {
    let n = self.vars.len();
    let v = (0..self.r.below(3) + 1).map(|_| self.s(d, true)).collect();
    if !keep {
      self.vars.truncate(n);
    }
    v
  }
  fn func(&mut self, name: &str, globals: &[(String, T)]) -> D {
    let mut ps: Vec<(String, T)> = vec![];
    for _ in 0..self.r.below(4) {
      let t = self.ty();
      let n = self.fresh(t);
      if !ps.iter().any(|p| p.0 == n) {
        ps.push((n, t));
      }
    }
    self.vars = globals.to_vec();
    self.vars.extend(ps.iter().cloned());
    let mut b = if self.r.chance(70) { self.body(2, true) } else { vec![] };
    let t = self.ty();
    b.push(S::Expr(self.e(t, 3)));
    self.fns.push((name.to_string(), ps.clone(), t));
    D::Fn(name.to_string(), ps.into_iter().map(|p| p.0).collect(), b)
  }
}
/// operands of a comparison stand at the additive level (a comparison among them needs parentheses)
fn at_add(e: E) -> E {
  *at(e, 1)
}
fn recursive(r: &mut Rng) -> D {
  // a recursive function over one integer: each call has its own frame
  let v = |s: &str| E::Var(s.into());
  let base = E::Int(r.range(0, 3));
  let call = E::Call("u".into(), vec![bin(4, v("n"), E::Int(1))]);
  let step = match r.below(4) {
    0 => bin(3, v("n"), call),
    1 => bin(4, call, v("n")),
    2 => bin(3, E::Lab("u".into(), vec![("n".into(), bin(4, v("n"), E::Int(2)))]), call),
    _ => bin(0, v("n"), call),
  };
  D::Fn(
    "u".into(),
    vec!["n".into()],
    vec![S::If(bin(6, v("n"), E::Int(0)), Box::new(S::Block(vec![S::Expr(base)])), Some(Box::new(S::Block(vec![S::Expr(step)]))))],
  )
}
fn gen_program(r: &mut Rng) -> Vec<D> {
  let mut p = vec![];
  let mut g = Gen { r, fns: vec![], count: 0, vars: vec![] };
  let mut globals: Vec<(String, T)> = vec![];
  if g.r.chance(50) {
    p.push(recursive(g.r));
  }
  for i in 0..g.r.below(5) {
    if g.r.chance(40) {
      let t = g.ty();
      let n = g.fresh(t);
      g.vars = globals.clone();
      let e = g.e(t, 3);
      globals.push((n.clone(), t));
      p.push(D::Global(n, e));
    } else {
      let d = g.func(&format!("{}{}", ["f", "g", "m"][i % 3], i), &globals);
      p.push(d);
    }
  }
  if !p.is_empty() && matches!(&p[0], D::Fn(n, ..) if n == "u") {
    g.vars = vec![];
    let n = E::Int(g.r.range(-1, 8));
    p.push(D::Global("n_u".into(), E::Call("u".into(), vec![n])));
    globals.push(("n_u".into(), T::I));
  }
  let mut m = match g.func("main", &globals) {
    D::Fn(n, ps, mut b) => {
      // main takes no arguments: what would be its parameters are set first
      let mut v: Vec<S> = vec![];
      for p in &ps {
        let t = g.fns.last().unwrap().1.iter().find(|x| x.0 == *p).unwrap().1;
        g.fns.truncate(g.fns.len());
        v.push(S::Set(p.clone(), match t { T::I => E::Int(4), T::B => E::Bool(true), T::S => E::Str("m".into()), T::A => E::Arr(vec![]) }));
      }
      v.append(&mut b);
      D::Fn(n, vec![], v)
    }
    d => d,
  };
  if g.r.chance(20) {
    if let D::Fn(_, _, b) = &mut m {
      b.pop();
      if b.is_empty() {
        b.push(S::Print(E::Str("end".into())));
      }
    }
  }
  // main may stand anywhere after the functions it needs: functions are found when they are called
  let k = g.r.below(p.len() + 1);
  if p.iter().all(|d| matches!(d, D::Fn(..))) {
    p.insert(k, m);
  } else {
    p.push(m);
  }
  p
}
struct Stdout {
  f: std::fs::File,
}
extern "C" {
  fn dup2(a: i32, b: i32) -> i32;
}
impl Stdout {
  /// standard output goes to a scratch file of our own, which has no name any more
  fn new(at: &str) -> Stdout {
    use std::os::fd::AsRawFd;
    let p = format!("{}.{}.stdout", at, std::process::id());
    let f = std::fs::OpenOptions::new().create(true).append(true).read(true).open(&p).unwrap();
    std::fs::remove_file(&p).unwrap();
    unsafe {
      dup2(f.as_raw_fd(), 1);
    }
    Stdout { f }
  }
  fn take(&mut self) -> String {
    std::io::stdout().flush().unwrap();
    self.f.seek(SeekFrom::Start(0)).unwrap();
    let mut s = String::new();
    self.f.read_to_string(&mut s).unwrap();
    self.f.set_len(0).unwrap();
    s
  }
}
fn c23(rep: &mut Report) {
  let mut r = Rng::new(rep.seed);
  let mut so = Stdout::new(&rep.out);
  while rep.more() {
    let p = gen_program(&mut r);
    let (want, out, vars) = match run(&p) {
      Some(w) => w,
      None => {
        rep.group("programs set aside (they overflow, divide by zero or run long)");
        continue;
      }
    };
    let mut o = Out { r: &mut r, o: String::new(), loose: false };
    o.p(&p);
    let t = o.o;
    let so = &mut so;
    rep.case(t.clone(), true, || {
      let tree = program_tree(&p);
      so.take();
      let mut i = Interpreter::new();
      let got = i.call_main(tree);
      let printed = so.take();
      if got != want.value() {
        return Err(format!("value {:?}, should be {:?}", got, want));
      }
      if got.to_string() != want.show() {
        return Err(format!("value prints as {:?}, should be {:?}", got.to_string(), want.show()));
      }
      if printed != out {
        return Err(format!("printed {:?}, should be {:?}", printed, out));
      }
      for (n, v) in &vars {
        if *i.get_value(n) != v.value() {
          return Err(format!("{} is {:?}, should be {:?}", n, i.get_value(n), v));
        }
      }
      Ok(())
    });
    rep.group("programs");
  }
}
fn main() {
  let mut rep = Report::from_args();
  match rep.prop.as_str() {
    "C21" => c21(&mut rep),
    _ => c23(&mut rep),
  }
  rep.finish();
}
