//! vx: mechanical extractor.  Reads Rust source files, and prints one JSON record per function, type and
//! trait.  Bodies are re-printed from the syntax tree after the rewrites listed in REWRITES (see DESIGN.md);
//! nothing else is changed.  Markers /*@CLO n@*/, /*@TY n i@*/ and /*@LOOP n@*/ show where the contract
//! layer may put closure contracts, parameter types and loop invariants.
use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- printing

fn ident_is(t: &TokenTree, s: &str) -> bool {
  matches!(t, TokenTree::Ident(i) if i == s)
}

fn print_ts(ts: TokenStream, out: &mut String, indent: usize) {
  let toks: Vec<TokenTree> = ts.into_iter().collect();
  let mut i = 0;
  while i < toks.len() {
    // -> __VxClo_N   =>  /*@CLO N@*/
    if let TokenTree::Punct(p) = &toks[i] {
      if p.as_char() == '-' && i + 2 < toks.len() {
        if let (TokenTree::Punct(q), TokenTree::Ident(id)) = (&toks[i + 1], &toks[i + 2]) {
          let s = id.to_string();
          if q.as_char() == '>' && s.starts_with("__VxClo_") {
            out.push_str(&format!(" /*@CLO {}@*/ ", &s["__VxClo_".len()..]));
            i += 3;
            continue;
          }
        }
      }
      if p.as_char() == ':' && i + 1 < toks.len() {
        if let TokenTree::Ident(id) = &toks[i + 1] {
          let s = id.to_string();
          if s.starts_with("__VxTy_") {
            out.push_str(&format!(" /*@TY {}@*/ ", s["__VxTy_".len()..].replace('_', " ")));
            i += 2;
            continue;
          }
        }
      }
    }
    match &toks[i] {
      TokenTree::Group(g) => {
        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
        match g.delimiter() {
          Delimiter::Brace => {
            let mut start = 0;
            if inner.len() >= 3 && ident_is(&inner[0], "__vx_loop") {
              // __vx_loop ! ( N ) ;
              if let TokenTree::Group(a) = &inner[2] {
                out.push_str(&format!("\n/*@LOOP {}@*/ ", a.stream()));
              }
              start = 4;
            }
            let mut arm = None;
            if inner.len() >= 3 && ident_is(&inner[0], "__vx_arm") {
              if let TokenTree::Group(a) = &inner[2] {
                arm = Some(a.stream().to_string());
              }
              start = 4;
            }
            out.push_str(" {\n");
            if let Some(a) = &arm {
              out.push_str(&format!("/*@ARM {}@*/", a));
            }
            out.push_str(&"  ".repeat(indent + 1));
            print_ts(inner[start..].iter().cloned().collect(), out, indent + 1);
            if let Some(a) = &arm {
              out.push_str(&format!("/*@ARMEND {}@*/", a));
            }
            out.push('\n');
            out.push_str(&"  ".repeat(indent));
            out.push_str("} ");
          }
          d => {
            let (a, b) = match d {
              Delimiter::Parenthesis => ("(", ")"),
              Delimiter::Bracket => ("[", "]"),
              _ => ("", ""),
            };
            out.push_str(a);
            print_ts(g.stream(), out, indent);
            out.push_str(b);
            out.push(' ');
          }
        }
      }
      TokenTree::Punct(p) => {
        out.push(p.as_char());
        if p.as_char() == ';' || p.as_char() == ',' && indent > 0 {
          out.push('\n');
          out.push_str(&"  ".repeat(indent));
        } else if p.spacing() == proc_macro2::Spacing::Alone {
          out.push(' ');
        }
      }
      TokenTree::Ident(id) if *id == "__vx_end" => {
        if let Some(TokenTree::Group(g)) = toks.get(i + 2) {
          out.push_str(&format!("\n/*@END {}@*/\n", g.stream()));
        }
        i += 4;
        continue;
      }
      TokenTree::Ident(id) if *id == "__vx_it" => {
        // __vx_it ! (N expr): the loop's ghost iterator gets a name
        if let Some(TokenTree::Group(g)) = toks.get(i + 2) {
          let inner: Vec<TokenTree> = g.stream().into_iter().collect();
          out.push_str(&format!("vx_it{}: ", inner[0]));
          print_ts(inner[1..].iter().cloned().collect(), out, indent);
        }
        i += 2;
      }
      TokenTree::Ident(id) => {
        out.push_str(&id.to_string());
        out.push(' ');
      }
      TokenTree::Literal(l) => {
        out.push_str(&l.to_string());
        out.push(' ');
      }
    }
    i += 1;
  }
}

fn text<T: ToTokens>(t: &T) -> String {
  let mut s = String::new();
  print_ts(t.to_token_stream(), &mut s, 0);
  s.trim().to_string()
}

// ---------------------------------------------------------------- rewriting

#[derive(Default)]
struct Rw {
  methods: BTreeSet<String>,       // locals bound to a parser's method
  closures: Vec<Value>,
  loops: Vec<Value>,
  locals: Vec<Value>,
  rewrites: BTreeSet<String>,
  unsupported: BTreeSet<String>,
  clo_stack: Vec<usize>,
  callee_stack: Vec<(String, usize)>,
  fresh: usize,
  parser_ops: bool,
  op_output: Option<Type>,
  renames: BTreeMap<String, String>,
  hoist: bool,
  lets: Option<String>,
}

/// the pattern behind `box PAT`
fn boxed(p: &Pat) -> Option<Pat> {
  if let Pat::Verbatim(ts) = p {
    let mut it = ts.clone().into_iter();
    if let Some(TokenTree::Ident(i)) = it.next() {
      if i == "box" {
        let rest: TokenStream = it.collect();
        return syn::parse::Parser::parse2(Pat::parse_single, rest).ok();
      }
    }
  }
  None
}
fn has_box(p: &Pat) -> bool {
  struct V(bool);
  impl<'a> syn::visit::Visit<'a> for V {
    fn visit_pat(&mut self, p: &'a Pat) {
      if boxed(p).is_some() {
        self.0 = true;
      }
      syn::visit::visit_pat(self, p);
    }
  }
  let mut v = V(false);
  syn::visit::Visit::visit_pat(&mut v, p);
  v.0
}
fn catch_all(a: &Arm) -> bool {
  a.guard.is_none()
    && match &a.pat {
      Pat::Wild(_) => true,
      Pat::Ident(i) => i.subpat.is_none() && i.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase()),
      _ => false,
    }
}

impl Rw {
  /// `box P` inside patterns: the box is bound, and its contents are matched by a nested match; when that or the guard
  /// does not fit, the arms that follow are tried, in order
  fn unbox(&mut self, scrut: &Expr, arms: &[Arm]) -> Expr {
    let k = match arms.iter().position(|a| has_box(&a.pat)) {
      Some(k) => k,
      None => {
        let tail: TokenStream = if arms.last().map_or(false, catch_all) { quote!() } else { quote!(_ => vx_panic(),) };
        return parse_quote!(match #scrut { #(#arms)* #tail });
      }
    };
    let before = &arms[..k];
    let arm = &arms[k];
    let rest = self.unbox(scrut, &arms[k + 1..]);
    struct V<'a>(&'a mut Rw, Vec<(Ident, Pat)>);
    impl<'a> VisitMut for V<'a> {
      fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if boxed(&f.pat).is_some() {
          f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
      }
      fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Some(q) = boxed(p) {
          let n = self.0.fresh_name("vx_box");
          self.1.push((n.clone(), q));
          *p = parse_quote!(#n);
          return;
        }
        visit_mut::visit_pat_mut(self, p);
      }
    }
    let mut head = arm.pat.clone();
    let mut v = V(self, vec![]);
    v.visit_pat_mut(&mut head);
    let subs = v.1;
    let body = arm.body.clone();
    let mut inner: Expr = match &arm.guard {
      Some((_, g)) => parse_quote!(if #g { #body } else { #rest }),
      None => parse_quote!({ #body }),
    };
    for (n, q) in subs.into_iter().rev() {
      inner = if matches!(&q, Pat::Ident(_) | Pat::Wild(_)) {
        parse_quote!(match &** #n { #q => #inner })
      } else if has_box(&q) {
        let a1: Arm = parse_quote!(#q => #inner,);
        let a2: Arm = parse_quote!(_ => #rest,);
        let s: Expr = parse_quote!(&** #n);
        self.unbox(&s, &[a1, a2])
      } else {
        parse_quote!(match &** #n { #q => #inner, _ => #rest })
      };
    }
    parse_quote!(match #scrut { #(#before)* #head => #inner, _ => #rest })
  }
}

fn path_last(e: &Expr) -> Option<String> {
  match e {
    Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
    Expr::Paren(p) => path_last(&p.expr),
    _ => None,
  }
}

fn strip(e: &Expr) -> &Expr {
  match e {
    Expr::Paren(p) => strip(&p.expr),
    Expr::Group(p) => strip(&p.expr),
    _ => e,
  }
}

/// X.method or X.method.clone() or Rc::clone(&X.method)  =>  X
fn method_base(e: &Expr) -> Option<Expr> {
  match strip(e) {
    Expr::Field(f) => match &f.member {
      Member::Named(n) if n == "method" => Some((*f.base).clone()),
      _ => None,
    },
    Expr::MethodCall(m) if m.method == "clone" => method_base(&m.receiver),
    Expr::Call(c) if c.args.len() == 1 => {
      let t = c.func.to_token_stream().to_string().replace(' ', "");
      if t == "Rc::clone" {
        match strip(&c.args[0]) {
          Expr::Reference(r) => method_base(&r.expr),
          _ => None,
        }
      } else {
        None
      }
    }
    Expr::Reference(r) => method_base(&r.expr),
    _ => None,
  }
}

thread_local! {
  /// full path of an external type => the name it gets here, so that types of the same name stay apart
  static ALIASES: std::cell::RefCell<BTreeMap<String, String>> = Default::default();
  /// the same for the names the current file imports
  static FOR_LOOPS: std::cell::Cell<bool> = Default::default();
  static FMT: std::cell::Cell<bool> = Default::default();
  static BYTES: std::cell::Cell<bool> = Default::default();
  static BYTE_TEXT: std::cell::Cell<bool> = Default::default();
  static PATHS: std::cell::Cell<bool> = Default::default();
  static LETS: std::cell::RefCell<Vec<String>> = Default::default();
  static LOCAL: std::cell::RefCell<BTreeMap<String, String>> = Default::default();
  /// macro_rules of one rule whose parameters are expressions: name => (parameters, body)
  static MACROS: std::cell::RefCell<BTreeMap<String, (Vec<String>, TokenStream)>> = Default::default();
}

thread_local! {
  /// expansions that become functions, and how often each macro was used so far
  static HOISTED: std::cell::RefCell<(Vec<(Ident, Expr)>, BTreeMap<String, usize>)> = Default::default();
}

/// an expression that names no local variable
fn closed(e: &Expr) -> bool {
  struct F(bool);
  impl<'a> syn::visit::Visit<'a> for F {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
      if !matches!(&*c.func, Expr::Path(_)) {
        syn::visit::visit_expr(self, &c.func);
      }
      c.args.iter().for_each(|a| self.visit_expr(a));
    }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
      if p.path.get_ident().map_or(false, |i| i.to_string().starts_with(|c: char| c.is_lowercase() || c == '_')) {
        self.0 = false;
      }
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {
      self.0 = false;
    }
  }
  let mut f = F(true);
  syn::visit::Visit::visit_expr(&mut f, e);
  f.0
}

/// an expression that uses no variable but those it binds itself
fn self_contained(e: &Expr, locals: &[String]) -> bool {
  struct P(Vec<String>);
  impl<'a> syn::visit::Visit<'a> for P {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
      self.0.push(p.ident.to_string());
    }
  }
  struct F(Vec<String>, Vec<String>, bool);
  impl<'a> syn::visit::Visit<'a> for F {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
      match &*c.func {
        Expr::Path(p) => {
          if p.path.get_ident().map_or(false, |i| self.1.contains(&i.to_string())) {
            self.2 = false;
          }
        }
        f => syn::visit::visit_expr(self, f),
      }
      c.args.iter().for_each(|a| self.visit_expr(a));
    }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
      if let Some(i) = p.path.get_ident().map(|i| i.to_string()) {
        if i.starts_with(|c: char| c.is_lowercase() || c == '_') && !self.0.contains(&i) {
          self.2 = false;
        }
      }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
      match Rw::macro_args(m) {
        Some(args) => args.iter().for_each(|a| self.visit_expr(a)),
        None => self.2 = false,
      }
    }
  }
  let mut p = P(vec![]);
  syn::visit::Visit::visit_expr(&mut p, e);
  let mut f = F(p.0, locals.to_vec(), true);
  syn::visit::Visit::visit_expr(&mut f, e);
  f.2
}

fn note_macros(items: &[Item]) {
  for i in items {
    if let Item::Macro(m) = i {
      let name = match &m.ident { Some(n) => n.to_string(), None => continue };
      let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
      let groups: Vec<&proc_macro2::Group> = toks.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None }).collect();
      if groups.len() != 2 {
        continue;
      }
      // $a : expr , $b : expr
      let mut params = vec![];
      let pt: Vec<String> = groups[0].stream().into_iter().map(|t| t.to_string()).collect();
      let mut ok = true;
      for part in pt.split(|t| t == ",") {
        match part {
          [d, n, c, e] if d == "$" && c == ":" && e == "expr" => params.push(n.clone()),
          [] => (),
          _ => ok = false,
        }
      }
      if ok {
        MACROS.with(|l| l.borrow_mut().insert(name, (params, groups[1].stream())));
      }
    }
  }
}

fn note_uses(items: &[Item]) {
  fn go(t: &UseTree, pre: &str, out: &mut Vec<(String, String)>) {
    match t {
      UseTree::Path(p) => go(&p.tree, &format!("{}{}::", pre, p.ident), out),
      UseTree::Name(n) => out.push((n.ident.to_string(), format!("{}{}", pre, n.ident))),
      UseTree::Rename(n) => out.push((n.rename.to_string(), format!("{}{}", pre, n.ident))),
      UseTree::Group(g) => g.items.iter().for_each(|t| go(t, pre, out)),
      UseTree::Glob(_) => (),
    }
  }
  let mut out = vec![];
  for i in items {
    if let Item::Use(u) = i {
      go(&u.tree, "", &mut out);
    }
  }
  let m = out.into_iter().filter_map(|(n, full)| ALIASES.with(|a| a.borrow().get(&full).cloned()).map(|x| (n, x))).collect();
  LOCAL.with(|l| *l.borrow_mut() = m);
}

fn alias_path(p: &mut Path) {
  let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
  if let Some(x) = LOCAL.with(|l| l.borrow().get(&segs[0]).cloned()) {
    p.segments[0].ident = Ident::new(&x, Span::call_site());
    return;
  }
  for k in 2..=segs.len() {
    if let Some(x) = ALIASES.with(|a| a.borrow().get(&segs[..k].join("::")).cloned()) {
      let rest: Vec<PathSegment> = p.segments.iter().skip(k - 1).cloned().collect();
      p.segments = rest.into_iter().collect();
      p.segments[0].ident = Ident::new(&x, Span::call_site());
      p.leading_colon = None;
      return;
    }
  }
}

fn shorten_path(p: &mut Path) {
  alias_path(p);
  // drop leading lower-case module segments of `crate::`, `std::`, `super::` paths; keep Type::name
  let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
  if segs.len() < 2 {
    return;
  }
  let mut k = 0;
  while k + 1 < segs.len() {
    let s = segs[k].ident.to_string();
    let low = s.chars().next().map_or(false, |c| c.is_lowercase()) && segs[k].arguments.is_empty();
    let prim = matches!(s.as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i32" | "i64" | "char" | "str" | "f64" | "bool");
    if low && !prim {
      k += 1;
    } else {
      break;
    }
  }
  if k > 0 {
    p.segments = segs[k..].iter().cloned().collect();
    p.leading_colon = None;
  }
}

impl Rw {
  fn rewrite_type_path(&mut self, tp: &mut TypePath) {
    if tp.qself.is_some() {
      return;
    }
    let segs: Vec<String> = tp.path.segments.iter().map(|s| s.ident.to_string()).collect();
    if segs.len() == 2 && segs[0] == "Self" {
      let last = tp.path.segments.last().unwrap().clone();
      match segs[1].as_str() {
        "P" => {
          let args = last.arguments;
          tp.path = parse_quote!(Parser #args);
        }
        "Input" => tp.path = parse_quote!(I),
        "Output" => {
          if let Some(Type::Path(o)) = self.op_output.clone() {
            let mut o = o;
            self.op_output = None;
            self.visit_type_path_mut(&mut o);
            self.op_output = Some(Type::Path(o.clone()));
            tp.path = o.path;
          } else {
            tp.path = parse_quote!(A)
          }
        }
        _ => {}
      }
    }
    shorten_path(&mut tp.path);
  }

  fn fresh_name(&mut self, base: &str) -> Ident {
    self.fresh += 1;
    Ident::new(&format!("{}__r{}", base, self.fresh), Span::call_site())
  }

  /// replaces `&x` sub-patterns by `x__r` and returns the needed `let x = *x__r;`
  fn deref_pat(&mut self, p: &mut Pat) -> Vec<Stmt> {
    struct V<'a>(&'a mut Rw, Vec<Stmt>);
    impl<'a> VisitMut for V<'a> {
      fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
          if let Pat::Ident(i) = &*r.pat {
            let orig = i.ident.clone();
            let n = self.0.fresh_name(&orig.to_string());
            self.1.push(parse_quote!(let #orig = * #n;));
            self.0.rewrites.insert("reference pattern `&x` bound as `x'` with `let x = *x'`".into());
            *p = parse_quote!(#n);
            return;
          }
        }
        visit_mut::visit_pat_mut(self, p);
      }
    }
    let mut v = V(self, vec![]);
    v.visit_pat_mut(p);
    v.1
  }

  fn macro_args(mac: &Macro) -> Option<Vec<Expr>> {
    mac
      .parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
      .ok()
      .map(|p| p.into_iter().collect())
  }

  /// `format!`-like: keep the evaluation of the arguments, drop the text
  fn drop_text(&mut self, mac: &Macro, result: TokenStream) -> Option<Expr> {
    let args = Self::macro_args(mac)?;
    let mut stmts: Vec<Stmt> = vec![];
    for a in args.into_iter() {
      let a = match a {
        Expr::Assign(x) => *x.right,
        a => a,
      };
      if let Expr::Lit(_) = a {
        continue;
      }
      stmts.push(parse_quote!(vx_use(& (#a));));
    }
    Some(parse_quote!({ #(#stmts)* #result }))
  }

  /// `format!` and `write!` with plain `{}` places: the pieces and the arguments' texts, one after the other
  fn build_text(&mut self, mac: &Macro, write: bool) -> Option<Expr> {
    let mut args = Self::macro_args(mac)?;
    let target = if write { Some(args.remove(0)) } else { None };
    if args.is_empty() {
      return None;
    }
    let lit = match args.remove(0) {
      Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
      _ => return None,
    };
    let mut stmts: Vec<Stmt> = vec![];
    let mut cur = String::new();
    let mut next = args.into_iter();
    let mut it = lit.chars().peekable();
    while let Some(c) = it.next() {
      match c {
        '{' if it.peek() == Some(&'{') => { it.next(); cur.push('{'); }
        '}' if it.peek() == Some(&'}') => { it.next(); cur.push('}'); }
        '{' => {
          let mut inner = String::new();
          loop {
            match it.next()? {
              '}' => break,
              x => inner.push(x),
            }
          }
          let a: Expr = if inner.is_empty() {
            next.next()?
          } else if inner.chars().all(|x| x.is_alphanumeric() || x == '_') && !inner.chars().next().unwrap().is_numeric() {
            let i = Ident::new(&inner, Span::call_site());
            parse_quote!(#i)
          } else {
            return None;
          };
          if !cur.is_empty() {
            stmts.push(parse_quote!(vx_s.vx_put(#cur);));
            cur.clear();
          }
          stmts.push(parse_quote!(vx_s.vx_put(& (#a));));
        }
        c => cur.push(c),
      }
    }
    if next.next().is_some() {
      return None;
    }
    if !cur.is_empty() {
      stmts.push(parse_quote!(vx_s.vx_put(#cur);));
    }
    self.rewrites.insert("format!/write! with plain places: the pieces of text, one after the other".into());
    Some(match target {
      None => parse_quote!({ let mut vx_s = vx_no_text(); #(#stmts)* vx_s }),
      Some(f) => parse_quote!({ let mut vx_s = vx_no_text(); #(#stmts)* #f.vx_write(vx_s) }),
    })
  }

  fn rewrite_macro(&mut self, mac: &Macro) -> Option<Expr> {
    let name = mac.path.segments.last()?.ident.to_string();
    match name.as_str() {
      "format" | "write" if FMT.with(|f| f.get()) => {
        if let Some(e) = self.build_text(mac, name == "write") {
          return Some(e);
        }
        if name == "write" {
          return None;
        }
        self.rewrites.insert("format!: arguments are evaluated, the text is arbitrary".into());
        self.drop_text(mac, quote!(vx_text()))
      }
      "format" => {
        self.rewrites.insert("format!: arguments are evaluated, the text is arbitrary".into());
        self.drop_text(mac, quote!(vx_text()))
      }
      "debug" | "info" | "warn" | "error" | "trace" | "println" | "eprintln" | "print" => {
        self.rewrites.insert("log and print macros: arguments are evaluated, nothing is printed".into());
        self.drop_text(mac, quote!())
      }
      "panic" | "unreachable" | "todo" | "unimplemented" => {
        if let Some(n) = self.renames.get("panic!") {
          self.rewrites.insert("panic!: does not come back (panics are outside partial correctness here)".into());
          let n = Ident::new(n, Span::call_site());
          return Some(parse_quote!(#n()));
        }
        self.rewrites.insert("panic!: must be shown unreachable".into());
        Some(parse_quote!(vx_panic()))
      }
      "vec" => {
        if mac.tokens.is_empty() {
          self.rewrites.insert("vec![] is Vec::new()".into());
          Some(parse_quote!(Vec::new()))
        } else {
          let args = Self::macro_args(mac)?;
          self.rewrites.insert("vec![a, ..] is Vec::new() with pushes".into());
          let v = Ident::new("vx_v", Span::call_site());
          Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#args);)* #v }))
        }
      }
      "anyhow" => {
        self.rewrites.insert("anyhow!: arguments are evaluated, the error text is arbitrary".into());
        self.drop_text(mac, quote!(vx_anyhow()))
      }
      "bail" => {
        self.rewrites.insert("bail!: arguments are evaluated, the error text is arbitrary".into());
        self.drop_text(mac, quote!(return Err(vx_anyhow());))
      }
      _ => {
        let (params, body) = MACROS.with(|m| m.borrow().get(&name).cloned())?;
        let args = Self::macro_args(mac)?;
        if args.len() != params.len() {
          return None;
        }
        fn go(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
          let mut out: Vec<TokenTree> = vec![];
          let mut it = ts.into_iter().peekable();
          while let Some(t) = it.next() {
            match &t {
              TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(i)) = it.peek() {
                  if let Some(x) = map.get(&i.to_string()) {
                    out.push(TokenTree::Group(proc_macro2::Group::new(Delimiter::Parenthesis, x.clone())));
                    it.next();
                    continue;
                  }
                }
                out.push(t);
              }
              TokenTree::Group(g) => out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), map)))),
              _ => out.push(t),
            }
          }
          out.into_iter().collect()
        }
        let map = params.into_iter().zip(args.iter().map(|a| a.to_token_stream())).collect();
        let e: Expr = syn::parse2(go(body, &map)).ok()?;
        if args.iter().all(closed) && self.hoist {
          let f = HOISTED.with(|h| {
            let mut h = h.borrow_mut();
            let n = h.1.entry(name.clone()).or_insert(0);
            let f = Ident::new(&format!("vx_{}_{}", name, n), Span::call_site());
            *n += 1;
            h.0.push((f.clone(), e));
            f
          });
          self.rewrites.insert("a use of a macro of the crate is a function of its own, whose body is the expansion".into());
          return Some(parse_quote!(#f()));
        }
        self.rewrites.insert("a macro of the crate is expanded where it is used".into());
        Some(parse_quote!((#e)))
      }
    }
  }

  /// a closure that works on self through its methods is run where it is passed: x.iter().map(f).collect() is a
  /// loop that pushes, opt.map(f) is a match
  fn write_out_map(&mut self, e: &Expr) -> Option<Expr> {
    fn one_arg(e: &Expr) -> Option<(Pat, Expr)> {
      match e {
        Expr::Closure(c) if c.inputs.len() == 1 => Some((c.inputs[0].clone(), (*c.body).clone())),
        _ => None,
      }
    }
    fn on_self(e: &Expr) -> bool {
      struct F(bool);
      impl<'a> syn::visit::Visit<'a> for F {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
          if matches!(strip(&m.receiver), Expr::Path(p) if p.path.is_ident("self")) {
            self.0 = true;
          }
          syn::visit::visit_expr_method_call(self, m);
        }
      }
      let mut f = F(false);
      syn::visit::Visit::visit_expr(&mut f, e);
      f.0
    }
    let m = match e {
      Expr::MethodCall(m) => m,
      _ => return None,
    };
    if m.method == "collect" && m.args.is_empty() {
      if let Expr::MethodCall(k) = strip(&m.receiver) {
        if k.method == "map" && k.args.len() == 1 {
          let (p, body) = one_arg(&k.args[0])?;
          if on_self(&body) {
            self.rewrites.insert("x.map(f).collect() with an f that works on self is a loop that pushes what f answers".into());
            let v = Ident::new(&format!("vx_vec{}", self.loops.len()), Span::call_site());
            let x = &k.receiver;
            return Some(parse_quote!({ let mut #v = Vec::new(); for #p in #x { #v.push(#body); } #v }));
          }
        }
      }
    }
    if m.method == "map" && m.args.len() == 1 {
      let (p, body) = one_arg(&m.args[0])?;
      let over_option = matches!(strip(&m.receiver), Expr::MethodCall(r) if ["as_ref", "get", "as_mut", "take", "cloned", "first", "last"].contains(&r.method.to_string().as_str()));
      if on_self(&body) && over_option {
        self.rewrites.insert("an option's map(f) with an f that works on self is a match".into());
        let x = &m.receiver;
        return Some(parse_quote!((match #x { Some(#p) => Some(#body), None => None })));
      }
    }
    None
  }

  fn local_kind(e: &Expr) -> &'static str {
    match strip(e) {
      Expr::Lit(l) => match &l.lit {
        Lit::Int(_) => "int",
        Lit::Bool(_) => "bool",
        _ => "other",
      },
      Expr::Path(p) if p.path.is_ident("None") => "opt",
      Expr::Macro(m) if m.mac.path.is_ident("vec") => "vec",
      Expr::Call(c) => {
        let t = c.func.to_token_stream().to_string().replace(' ', "");
        if t.starts_with("Vec::") {
          "vec"
        } else if t.ends_with("ParseState::new") {
          "state"
        } else {
          "other"
        }
      }
      Expr::MethodCall(m) => match m.method.to_string().as_str() {
        "advance_by" => "state",
        "input" => "input",
        "run" => "result",
        _ => "other",
      },
      _ => "other",
    }
  }

  fn note_local(&mut self, l: &Local) {
    let (pat, ty) = match &l.pat {
      Pat::Type(t) => ((*t.pat).clone(), Some(text(&t.ty))),
      p => (p.clone(), None),
    };
    if let Pat::Ident(i) = &pat {
      let kind = l.init.as_ref().map_or("none", |x| Self::local_kind(&x.expr));
      self.locals.push(json!({
        "name": i.ident.to_string(), "mut": i.mutability.is_some(), "kind": kind, "ty": ty,
        "clo": self.clo_stack.last(),
        "init": l.init.as_ref().map(|x| text(&x.expr)),
      }));
      if let Some(init) = &l.init {
        if method_base(&init.expr).is_some() {
          self.methods.insert(i.ident.to_string());
        }
      }
    }
  }
}

impl VisitMut for Rw {
  fn visit_type_path_mut(&mut self, tp: &mut TypePath) {
    visit_mut::visit_type_path_mut(self, tp);
    self.rewrite_type_path(tp);
  }

  fn visit_path_mut(&mut self, p: &mut Path) {
    visit_mut::visit_path_mut(self, p);
    shorten_path(p);
  }

  fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
    a.clear();
  }

  fn visit_local_mut(&mut self, l: &mut Local) {
    self.note_local(l);
    if let (Some(f), Pat::Ident(i), Some(init), true) = (&self.lets, &l.pat, &mut l.init, self.hoist) {
      let names: Vec<String> = self.locals.iter().filter_map(|x| x["name"].as_str().map(|x| x.to_string())).collect();
      let named = LETS.with(|l| l.borrow().contains(&format!("{}_{}", f, i.ident)));
      if named && i.mutability.is_none() && self.clo_stack.is_empty() && self_contained(&init.expr, &names) {
        let f = Ident::new(&format!("vx_{}_{}", f, i.ident), Span::call_site());
        let e = std::mem::replace(&mut *init.expr, parse_quote!(#f()));
        HOISTED.with(|h| h.borrow_mut().0.push((f, e)));
        self.rewrites.insert("a let whose value uses no local is a function of its own, whose body is the value".into());
        return;
      }
    }
    visit_mut::visit_local_mut(self, l);
  }

  fn visit_block_mut(&mut self, b: &mut Block) {
    // statement macros
    for s in b.stmts.iter_mut() {
      if let Stmt::Macro(m) = s {
        if let Some(e) = self.rewrite_macro(&m.mac) {
          let semi = m.semi_token;
          *s = Stmt::Expr(e, semi);
        }
      }
    }
    visit_mut::visit_block_mut(self, b);
    // a place for ghost code right after each loop statement
    let mut i = 0;
    while i < b.stmts.len() {
      let last = i + 1 == b.stmts.len();
      let id = match &b.stmts[i] {
        Stmt::Expr(e, semi) => {
          let body = match e {
            Expr::Loop(w) if semi.is_some() || !last || plain_breaks(&w.body) => Some(&w.body),
            Expr::While(w) => Some(&w.body),
            Expr::ForLoop(w) => Some(&w.body),
            _ => None,
          };
          body.and_then(|b| match b.stmts.first() {
            Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vx_loop") => Some(m.mac.tokens.clone()),
            _ => None,
          })
        }
        _ => None,
      };
      if let Some(id) = id {
        b.stmts.insert(i + 1, parse_quote!(__vx_end!(#id);));
        i += 1;
      }
      i += 1;
    }
  }

  fn visit_expr_mut(&mut self, e: &mut Expr) {
    // the byte string a literal parser is given is the bytes of that text
    if let Expr::Call(c) = e {
      if BYTE_TEXT.with(|f| f.get()) && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("seq")) {
        if let Some(Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. })) = c.args.first() {
          if let (Ok(t), true) = (String::from_utf8(b.value()), b.value().is_ascii()) {
            self.rewrites.insert("the byte string given to seq is the bytes of the same ASCII text".into());
            c.args[0] = parse_quote!(vx_b(#t));
          }
        }
      }
    }
    // a byte string is the array of its bytes
    if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = e {
      if BYTES.with(|f| f.get()) {
        let xs: Vec<proc_macro2::Literal> = b.value().iter().map(|x| proc_macro2::Literal::u8_suffixed(*x)).collect();
        self.rewrites.insert("a byte string is the reference to the array of its bytes".into());
        *e = parse_quote!((&[#(#xs),*]));
        return;
      }
    }
    // macros first
    if let Expr::Macro(m) = e {
      if let Some(n) = self.rewrite_macro(&m.mac) {
        *e = n;
        if let Expr::Paren(p) = e {
          if let Expr::Macro(_) = &*p.expr {
            self.visit_expr_mut(&mut p.expr);
            return;
          }
        }
      } else {
        let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if name != "matches" && name != "__vx_arm" && name != "__vx_loop" && name != "__vx_end" && name != "__vx_it" {
          self.unsupported.insert(format!("macro {}!", name));
        } else if name == "matches" {
          // matches!(x, pats) is a match
          struct M(Expr, Pat, Option<Expr>);
          impl syn::parse::Parse for M {
            fn parse(input: syn::parse::ParseStream) -> Result<Self> {
              let e: Expr = input.parse()?;
              input.parse::<Token![,]>()?;
              let p = Pat::parse_multi_with_leading_vert(input)?;
              let g = if input.peek(Token![if]) {
                input.parse::<Token![if]>()?;
                Some(input.parse()?)
              } else {
                None
              };
              let _ = input.parse::<Token![,]>();
              Ok(M(e, p, g))
            }
          }
          if let Ok(M(x, p, g)) = m.mac.parse_body::<M>() {
            self.rewrites.insert("matches! is a match".into());
            *e = match g {
              None => parse_quote!((match #x { #p => true, _ => false })),
              Some(g) => parse_quote!((match #x { #p if #g => true, _ => false })),
            };
          }
        }
      }
    }
    if let Expr::Match(m) = e {
      // match x { &P => .. } is match *x { P => .. }
      let inner = |p: &Pat| match p { Pat::Reference(r) if !matches!(&*r.pat, Pat::Ident(_)) => Some((*r.pat).clone()), _ => None };
      let whole = m.arms.iter().all(|a| matches!(a.pat, Pat::Wild(_)) || inner(&a.pat).is_some());
      if whole && m.arms.iter().any(|a| inner(&a.pat).is_some()) {
        for a in m.arms.iter_mut() {
          if let Some(q) = inner(&a.pat) {
            a.pat = q;
          }
        }
        let x = m.expr.clone();
        m.expr = parse_quote!((*#x));
        self.rewrites.insert("a match on `&P` patterns matches the value behind the reference".into());
      }
    }
    if let Expr::Match(m) = e {
      if m.arms.iter().any(|a| has_box(&a.pat)) {
        self.rewrites.insert("box patterns are nested matches on the box's contents".into());
        let arms: Vec<Arm> = m.arms.iter().cloned().map(|mut a| { a.comma = Some(Default::default()); a }).collect();
        let simple = matches!(strip(&m.expr), Expr::Path(_));
        let (scrut, pre): (Expr, Option<Stmt>) = if simple { ((*m.expr).clone(), None) } else {
          let n = self.fresh_name("vx_scrut");
          let x = m.expr.clone();
          (parse_quote!(#n), Some(parse_quote!(let #n = #x;)))
        };
        let y = self.unbox(&scrut, &arms);
        *e = match pre { None => y, Some(p) => parse_quote!({ #p #y }) };
      }
    }
    // a slice to the end, of text
    if let (true, Expr::Reference(r)) = (FOR_LOOPS.with(|f| f.get()), &*e) {
      if let Expr::Index(ix) = strip(&r.expr) {
        if let Expr::Range(rg) = strip(&ix.index) {
          if let (Some(a), true) = (&rg.start, self.renames.contains_key("slice")) {
            let (b, a) = (ix.expr.clone(), a.clone());
            self.rewrites.insert("&x[a..b] is called by its name, vx_slice".into());
            *e = match &rg.end {
              Some(z) => parse_quote!(vx_slice(&#b, #a, #z)),
              None => parse_quote!(vx_slice_from(&#b, #a)),
            };
          } else if let (Some(a), None) = (&rg.start, &rg.end) {
            let (b, a) = (ix.expr.clone(), a.clone());
            self.rewrites.insert("&x[a..] is called by its name, vx_from".into());
            *e = parse_quote!(vx_from(#b, #a));
          }
        }
      }
    }
    if let (true, Some(x)) = (FOR_LOOPS.with(|f| f.get()), self.write_out_map(e)) {
      *e = x;
    }
    // std methods with an assumed contract under another name
    if let Expr::MethodCall(m) = e {
      if let Some(n) = self.renames.get(&format!("{}/{}", m.method, m.args.len())) {
        m.method = Ident::new(n, Span::call_site());
        self.rewrites.insert(format!("a std method is called through its alias {} (assumed contract)", n));
      }
    }
    // parser.method
    if let Some(base) = method_base(e) {
      self.rewrites.insert("a parser's `method` is the parser itself".into());
      let mut b = base;
      self.visit_expr_mut(&mut b);
      *e = parse_quote!(#b.clone());
      return;
    }
    if let Expr::Call(c) = e {
      // NAME(args) / (NAME)(args) / (X.method)(args)
      let callee = strip(&c.func).clone();
      let is_m = match &callee {
        Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.methods.contains(&i.to_string())),
        Expr::Field(f) => matches!(&f.member, Member::Named(n) if n == "method"),
        _ => false,
      };
      if is_m {
        let recv: Expr = match &callee {
          Expr::Field(f) => (*f.base).clone(),
          x => x.clone(),
        };
        let args = c.args.clone();
        *e = parse_quote!(#recv.run(#args));
      }
    }
    // type ascription by `as`
    if let Expr::Cast(c) = e {
      let prim = match &*c.ty {
        Type::Path(p) => p.path.get_ident().map_or(false, |i| matches!(i.to_string().as_str(),
          "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize" | "f32" | "f64" | "char" | "bool")),
        Type::Infer(_) => true,
        _ => false,
      };
      if !prim {
        self.rewrites.insert("`e as T` with a non-primitive T is an identity call".into());
        let (x, ty) = (c.expr.clone(), c.ty.clone());
        *e = parse_quote!(vx_as::<#ty>(#x));
      }
    }
    // constructors used as function values
    let uppers = |x: &Expr| match strip(x) {
      Expr::Path(p) => {
        let n = p.path.segments.last().unwrap().ident.to_string();
        n.chars().next().unwrap().is_uppercase()
      }
      _ => false,
    };
    let paths = PATHS.with(|f| f.get());
    let fix_args = |rw: &mut Rw, name: &str, args: &mut Punctuated<Expr, Token![,]>| {
      for a in args.iter_mut() {
        if paths {
          if let Expr::Path(p) = strip(a) {
            let p = p.path.clone();
            if p.segments.len() == 1 && name == "lazy" {
              // a production named by another one that it is part of
              let n = p.segments[0].ident.to_string();
              let n = Ident::new(&format!("vx_rec_{}", n.trim_start_matches("r#")), Span::call_site());
              rw.rewrites.insert("lazy(f) of a production f is lazy(vx_fn0(vx_rec_f)): vx_rec_f has f's contract, vx_fn0 is that function (assumed)".into());
              *a = parse_quote!(vx_fn0(#n));
              continue;
            }
            let last = p.segments.last().unwrap().ident.to_string();
            if p.segments.len() > 1 && matches!(name, "map" | "map_res") && !last.chars().next().unwrap().is_uppercase() {
              rw.rewrites.insert("a function named as a value is a closure that calls it".into());
              *a = parse_quote!(move |vx_x| #p(vx_x));
              continue;
            }
          }
        }
        if uppers(a) {
          let n = path_last(a).unwrap();
          let single = match strip(a) { Expr::Path(p) => p.path.segments.len() == 1, _ => false };
          let always = single && matches!(n.as_str(), "Some" | "Ok" | "Err");
          let mapish = matches!(name, "map" | "map_res" | "map_opt" | "flat_map" | "and_then" | "or_else" | "map_err");
          if always || mapish {
            rw.rewrites.insert("a constructor used as a function value is a closure".into());
            let p = a.clone();
            *a = parse_quote!(move |vx_x| #p(vx_x));
          }
        }
      }
    };
    match e {
      Expr::Call(c) => {
        let n = path_last(&c.func).unwrap_or_default();
        if n != "Some" && n != "Ok" && n != "Err" {
          fix_args(self, &n, &mut c.args);
        }
      }
      Expr::MethodCall(m) => {
        let n = m.method.to_string();
        fix_args(self, &n, &mut m.args);
      }
      _ => {}
    }

    match e {
      Expr::Call(c) => {
        let n = path_last(&c.func).unwrap_or_default();
        self.visit_expr_mut(&mut c.func);
        for (i, a) in c.args.iter_mut().enumerate() {
          self.callee_stack.push((n.clone(), i));
          self.visit_expr_mut(a);
          self.callee_stack.pop();
        }
        return;
      }
      Expr::MethodCall(m) => {
        let n = m.method.to_string();
        self.visit_expr_mut(&mut m.receiver);
        if let Some(t) = &mut m.turbofish {
          self.visit_angle_bracketed_generic_arguments_mut(t);
        }
        for (i, a) in m.args.iter_mut().enumerate() {
          self.callee_stack.push((n.clone(), i));
          self.visit_expr_mut(a);
          self.callee_stack.pop();
        }
        return;
      }
      Expr::Closure(c) => {
        c.attrs.clear();
        if paths {
          if let Expr::Match(m) = &mut *c.body {
            let is_path = |x: &Expr| matches!(strip(x), Expr::Path(p) if p.path.segments.len() > 1);
            if m.arms.iter().all(|a| is_path(&a.body) || matches!(&*a.body, Expr::Macro(_))) && m.arms.iter().any(|a| is_path(&a.body)) {
              self.rewrites.insert("a function named as a value in a match is wrapped by vx_fn2 (assumed: it is that function)".into());
              for a in m.arms.iter_mut() {
                if is_path(&a.body) {
                  let b = a.body.clone();
                  *a.body = parse_quote!(vx_fn2(#b));
                }
              }
            }
          }
        }
        let id = self.closures.len();
        let (callee, ai) = self.callee_stack.last().cloned().unwrap_or_default();
        self.closures.push(json!(null));
        let mut names = vec![];
        let mut tys = vec![];
        let mut pre: Vec<Stmt> = vec![];
        for (i, p) in c.inputs.iter_mut().enumerate() {
          pre.extend(self.deref_pat(p));
          let (pat, ty) = match p.clone() {
            Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
            q => (q, None),
          };
          let mut pat = pat;
          if let Pat::Wild(_) = pat {
            let n = Ident::new(&format!("vx_unused{}", i), Span::call_site());
            pat = parse_quote!(#n);
          }
          if let Pat::Ident(pi) = &pat {
            if pi.mutability.is_some() {
              let n = Ident::new(&format!("vx_arg{}", i), Span::call_site());
              let q = pat.clone();
              pre.push(parse_quote!(let #q = #n;));
              self.rewrites.insert("a mutable closure parameter is rebound in the closure's body".into());
              pat = parse_quote!(#n);
            }
          }
          if !matches!(pat, Pat::Ident(_)) {
            // destructuring parameter: bind, then destructure
            let n = Ident::new(&format!("vx_arg{}", i), Span::call_site());
            let q = pat.clone();
            pre.push(parse_quote!(let #q = #n;));
            self.rewrites.insert("a closure parameter pattern is destructured in the closure's body".into());
            pat = parse_quote!(#n);
          }
          names.push(pat.to_token_stream().to_string());
          tys.push(ty.as_ref().map(|t| text(t)));
          let t = Ident::new(&format!("__VxTy_{}_{}", id, i), Span::call_site());
          *p = Pat::Type(PatType {
            attrs: vec![],
            pat: Box::new(pat),
            colon_token: Default::default(),
            ty: parse_quote!(#t),
          });
        }
        let body = (*c.body).clone();
        let out_ty = match &c.output {
          ReturnType::Type(_, t) => Some(text(t)),
          _ => None,
        };
        let mut block: Block = match body {
          Expr::Block(b) if b.label.is_none() && pre.is_empty() => b.block,
          other => parse_quote!({ #(#pre)* #other }),
        };
        let raw = text(&block);
        self.clo_stack.push(id);
        let cs = std::mem::take(&mut self.callee_stack);
        self.visit_block_mut(&mut block);
        self.callee_stack = cs;
        self.clo_stack.pop();
        let o = Ident::new(&format!("__VxClo_{}", id), Span::call_site());
        c.output = ReturnType::Type(Default::default(), parse_quote!(#o));
        c.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block }));
        self.closures[id] = json!({
          "id": id, "callee": callee, "arg": ai, "params": names, "tys": tys, "out": out_ty,
          "parent": self.clo_stack.last(), "raw": raw,
        });
        return;
      }
      _ => {}
    }

    match e {
      Expr::If(i) => {
        if let Expr::Let(l) = &mut *i.cond {
          let pre = self.deref_pat(&mut l.pat);
          for (k, s) in pre.into_iter().enumerate() {
            i.then_branch.stmts.insert(k, s);
          }
        }
      }
      Expr::Match(m) => {
        for a in m.arms.iter_mut() {
          let pre = self.deref_pat(&mut a.pat);
          if !pre.is_empty() {
            if let Some((_, g)) = &mut a.guard {
              let g0 = (**g).clone();
              **g = parse_quote!({ #(#pre)* #g0 });
            }
            let b = a.body.clone();
            a.body = parse_quote!({ #(#pre)* #b });
          }
        }
      }
      _ => {}
    }
    match e {
      Expr::While(w) => {
        let mut pre = vec![];
        if let Expr::Let(l) = &mut *w.cond {
          pre = self.deref_pat(&mut l.pat);
        }
        for (k, s) in pre.into_iter().enumerate() {
          w.body.stmts.insert(k, s);
        }
        let id = self.loops.len();
        self.loops.push(json!({"id": id, "kind": "while", "cond": text(&w.cond), "clo": self.clo_stack.last(), "locals_before": self.locals.len()}));
        visit_mut::visit_expr_while_mut(self, w);
        let l = Literal_usize(id);
        w.body.stmts.insert(0, parse_quote!(__vx_loop!(#l);));
        return;
      }
      Expr::Loop(w) => {
        let id = self.loops.len();
        self.loops.push(json!({"id": id, "kind": "loop", "clo": self.clo_stack.last(), "locals_before": self.locals.len()}));
        visit_mut::visit_expr_loop_mut(self, w);
        let l = Literal_usize(id);
        w.body.stmts.insert(0, parse_quote!(__vx_loop!(#l);));
        return;
      }
      Expr::ForLoop(w) => {
        let pre = self.deref_pat(&mut w.pat);
        for (k, s) in pre.into_iter().enumerate() {
          w.body.stmts.insert(k, s);
        }
        let id = self.loops.len();
        self.loops.push(json!({"id": id, "kind": "for", "pat": text(&w.pat), "iter": text(&w.expr), "clo": self.clo_stack.last(), "locals_before": self.locals.len()}));
        visit_mut::visit_expr_for_loop_mut(self, w);
        let l = Literal_usize(id);
        let it = (*w.expr).clone();
        if FOR_LOOPS.with(|f| f.get()) {
          // what a `for` loop means: next() until it answers None
          self.rewrites.insert("a for loop is written out: an iterator, and a loop over its next() until None".into());
          let n = Ident::new(&format!("vx_it{}", id), Span::call_site());
          let (pat, body, label) = ((*w.pat).clone(), w.body.clone(), w.label.clone());
          if let Expr::Reference(r) = strip(&it) {
            if r.mutability.is_some() {
              let x = r.expr.clone();
              self.rewrites.insert("a for loop over &mut of a vector is written out: a position, and the element there until the end".into());
              *e = parse_quote!({
                let mut #n: usize = 0;
                #label loop { __vx_loop!(#l); match vx_next_mut(&mut #x, &mut #n) { None => { break; } Some(#pat) => #body } }
                __vx_end!(#l);
              });
              return;
            }
          }
          *e = parse_quote!({
            let mut #n = vx_iter_of(#it);
            #label loop { __vx_loop!(#l); match #n.vx_next() { None => { break; } Some(#pat) => #body } }
            __vx_end!(#l);
          });
          return;
        }
        *w.expr = parse_quote!(__vx_it!(#l #it));
        w.body.stmts.insert(0, parse_quote!(__vx_loop!(#l);));
        return;
      }
      Expr::Binary(b) if self.parser_ops && self.clo_stack.is_empty() => {
        let (l, r) = (b.left.clone(), b.right.clone());
        let m = match b.op {
          BinOp::Add(_) => Some("op_add"),
          BinOp::Sub(_) => Some("op_sub"),
          BinOp::Mul(_) => Some("op_mul"),
          BinOp::BitOr(_) => Some("op_bitor"),
          _ => None,
        };
        if let Some(m) = m {
          self.rewrites.insert("operators on parsers are calls of the operator's method".into());
          let m = Ident::new(m, Span::call_site());
          *e = parse_quote!(#l.#m(#r));
          self.visit_expr_mut(e);
          return;
        }
      }
      _ => {}
    }
    visit_mut::visit_expr_mut(self, e);
  }
}

#[allow(non_snake_case)]
fn plain_breaks(b: &Block) -> bool {
  struct V(bool, bool);
  impl<'a> syn::visit::Visit<'a> for V {
    fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) {
      if b.expr.is_some() {
        self.1 = true;
      } else {
        self.0 = true;
      }
    }
  }
  let mut v = V(false, false);
  syn::visit::Visit::visit_block(&mut v, b);
  v.0 && !v.1
}

#[allow(non_snake_case)]
fn Literal_usize(n: usize) -> proc_macro2::Literal {
  proc_macro2::Literal::usize_unsuffixed(n)
}

// ---------------------------------------------------------------- bounds

const DROP_BOUNDS: &[&str] = &["Debug", "Display", "Hash"];

fn keep_bounds(b: &Punctuated<TypeParamBound, Token![+]>, notes: &mut BTreeSet<String>) -> Vec<TypeParamBound> {
  b.iter()
    .filter(|x| match x {
      TypeParamBound::Trait(t) => {
        let n = t.path.segments.last().unwrap().ident.to_string();
        let drop = DROP_BOUNDS.contains(&n.as_str());
        if drop {
          notes.insert("Debug, Display and Hash bounds are dropped".into());
        }
        !drop
      }
      _ => true,
    })
    .cloned()
    .collect()
}

fn generics(g: &Generics, rw: &mut Rw) -> (String, Vec<String>) {
  let mut ps: Vec<String> = vec![];
  let mut wh: Vec<String> = vec![];
  for p in g.params.iter() {
    match p {
      GenericParam::Lifetime(l) => ps.push(text(&l)),
      GenericParam::Type(t) => {
        let mut t = t.clone();
        let mut n = BTreeSet::new();
        let bs = keep_bounds(&t.bounds, &mut n);
        rw.rewrites.extend(n);
        t.bounds = bs.into_iter().collect();
        rw.visit_type_param_mut(&mut t);
        t.default = None;
        if t.bounds.is_empty() {
          t.colon_token = None;
        }
        ps.push(text(&t));
      }
      GenericParam::Const(c) => ps.push(text(&c)),
    }
  }
  if let Some(w) = &g.where_clause {
    for p in w.predicates.iter() {
      match p {
        WherePredicate::Type(t) => {
          let mut t = t.clone();
          let mut n = BTreeSet::new();
          let bs = keep_bounds(&t.bounds, &mut n);
          rw.rewrites.extend(n);
          if bs.is_empty() {
            continue;
          }
          t.bounds = bs.into_iter().collect();
          rw.visit_predicate_type_mut(&mut t);
          wh.push(text(&t));
        }
        p => wh.push(text(&p)),
      }
    }
  }
  (ps.join(", "), wh)
}

// ---------------------------------------------------------------- items

struct Ctx {
  file: String,
  out: Vec<Value>,
  parser_ops: bool,
  op_output: Option<Type>,
  renames: BTreeMap<String, String>,
}

fn is_test(attrs: &[Attribute]) -> bool {
  attrs.iter().any(|a| {
    let t = a.to_token_stream().to_string().replace(' ', "");
    t == "#[test]" || t.starts_with("#[cfg(test") || t.contains("ctor::ctor")
  })
}

fn fn_record(
  ctx: &mut Ctx,
  sig: &Signature,
  block: Option<&Block>,
  attrs: &[Attribute],
  owner: Value,
  vis: &str,
  span: Span,
) {
  if is_test(attrs) {
    return;
  }
  let mut rw = Rw { parser_ops: ctx.parser_ops, op_output: ctx.op_output.clone(), renames: ctx.renames.clone(), ..Default::default() };
  let fname = sig.ident.to_string();
  // an alias for one function only: "fname.method/arity"
  for (k, v) in ctx.renames.iter() {
    if let Some((f, m)) = k.split_once('.') {
      rw.renames.remove(k);
      if f == fname {
        rw.renames.insert(m.to_string(), v.clone());
      }
    }
  }
  rw.lets = LETS.with(|l| l.borrow().iter().any(|n| n.starts_with(&format!("{fname}_")))).then_some(fname);
  rw.hoist = sig.generics.type_params().next().is_none() && sig.generics.where_clause.is_none();
  let (gen, wh) = generics(&sig.generics, &mut rw);
  let mut params = vec![];
  let mut receiver: Option<String> = None;
  let mut pre: Vec<Stmt> = vec![];
  let mut self_rename = false;
  for (i, a) in sig.inputs.iter().enumerate() {
    match a {
      FnArg::Receiver(r) => {
        let mut s = String::new();
        if r.reference.is_some() {
          s.push('&');
          if r.mutability.is_some() {
            s.push_str("mut ");
          }
        } else if r.mutability.is_some() {
          self_rename = true;
        }
        s.push_str("self");
        receiver = Some(s);
      }
      FnArg::Typed(t) => {
        let mut ty = (*t.ty).clone();
        rw.visit_type_mut(&mut ty);
        let name = match &*t.pat {
          Pat::Ident(id) => {
            if id.mutability.is_some() {
              let n = &id.ident;
              pre.push(parse_quote!(let mut #n = #n;));
            }
            id.ident.to_string()
          }
          Pat::Wild(_) => format!("vx_unused{}", i),
          p => {
            let n = Ident::new(&format!("vx_arg{}", i), Span::call_site());
            pre.push(parse_quote!(let #p = #n;));
            n.to_string()
          }
        };
        params.push(json!({"name": name, "ty": text(&ty)}));
      }
    }
  }
  let ret = match &sig.output {
    ReturnType::Default => None,
    ReturnType::Type(_, t) => {
      let mut t = (**t).clone();
      rw.visit_type_mut(&mut t);
      Some(text(&t))
    }
  };
  let mut raw_tokens = String::new();
  let mut arms = 0usize;
  let body = block.map(|b| {
    let mut b = b.clone();
    raw_tokens = b.to_token_stream().to_string();
    if self_rename {
      rw.rewrites.insert("`mut self` is rebound to a mutable local".into());
      struct R;
      impl VisitMut for R {
        fn visit_ident_mut(&mut self, i: &mut Ident) {
          if i == "self" {
            *i = Ident::new("self_", Span::call_site());
          }
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
          fn go(ts: TokenStream) -> TokenStream {
            ts.into_iter()
              .map(|t| match t {
                TokenTree::Ident(i) if i == "self" => TokenTree::Ident(Ident::new("self_", i.span())),
                TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream()))),
                t => t,
              })
              .collect()
          }
          m.tokens = go(m.tokens.clone());
        }
      }
      R.visit_block_mut(&mut b);
      let s = Ident::new("self_", Span::call_site());
      b.stmts.insert(0, parse_quote!(let mut #s = self;));
    }
    for (k, s) in pre.iter().enumerate() {
      b.stmts.insert(k, s.clone());
    }
    // a static of the function's own, without interior mutability: a value that lives as long as the program
    let mut statics = vec![];
    for s in b.stmts.iter_mut() {
      if let Stmt::Item(Item::Static(st)) = s {
        if matches!(st.mutability, StaticMutability::None) {
          let (n, t, x) = (st.ident.clone(), st.ty.clone(), st.expr.clone());
          statics.push(n.clone());
          *s = parse_quote!(let #n: &'static #t = vx_static(#x););
        }
      }
    }
    if !statics.is_empty() {
      rw.rewrites.insert("a static inside a function is a value borrowed for ever".into());
      struct St(Vec<Ident>);
      impl VisitMut for St {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
          if let Expr::Path(p) = e {
            if p.path.get_ident().map_or(false, |i| self.0.contains(i)) {
              let q = p.clone();
              *e = parse_quote!((*#q));
              return;
            }
          }
          visit_mut::visit_expr_mut(self, e);
        }
      }
      St(statics).visit_block_mut(&mut b);
    }
    // two passes: locals bound to methods may be declared in any order before use
    rw.visit_block_mut(&mut b);
    // where the function ends in a match, its arms are marked: they can be checked one at a time
    if let Some(Stmt::Expr(Expr::Match(m), None)) = b.stmts.last_mut() {
      if m.arms.len() > 2 {
        arms = m.arms.len();
        for (i, a) in m.arms.iter_mut().enumerate() {
          let (n, x) = (Literal_usize(i), a.body.clone());
          a.body = parse_quote!({ __vx_arm!(#n); #x });
          a.comma = None;
        }
      }
    }
    text(&b)
  });
  let lc = span.start();
  let le = span.end();
  ctx.out.push(json!({
    "item": "fn", "file": ctx.file, "line": lc.line, "line_end": le.line, "owner": owner, "vis": vis,
    "name": sig.ident.to_string(), "generics": gen, "where": wh, "receiver": receiver, "params": params,
    "ret": ret, "body": body, "closures": rw.closures, "loops": rw.loops, "locals": rw.locals,
    "rewrites": rw.rewrites, "unsupported": rw.unsupported, "unsafe": sig.unsafety.is_some(),
    "tokens": raw_tokens, "arms": arms,
  }));
  loop {
    let next = HOISTED.with(|h| { let mut h = h.borrow_mut(); if h.0.is_empty() { None } else { Some(h.0.remove(0)) } });
    match next {
      None => break,
      Some((name, e)) => {
        let g = &sig.generics;
        let f: ItemFn = parse_quote!(fn #name #g () { #e });
        fn_record(ctx, &f.sig, Some(&f.block), &[], json!({"kind": "free", "module": ""}), "", span);
      }
    }
  }
}

fn vis_str(v: &Visibility) -> String {
  v.to_token_stream().to_string().replace(' ', "")
}

fn type_name(t: &Type) -> String {
  match t {
    Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
    t => t.to_token_stream().to_string().replace(' ', ""),
  }
}

fn walk(ctx: &mut Ctx, items: &[Item], module: &str) {
  for it in items {
    match it {
      Item::Fn(f) => fn_record(
        ctx,
        &f.sig,
        Some(&f.block),
        &f.attrs,
        json!({"kind": "free", "module": module}),
        &vis_str(&f.vis),
        f.span(),
      ),
      Item::Impl(im) => {
        if is_test(&im.attrs) {
          continue;
        }
        let mut rw = Rw::default();
        let (gen, wh) = generics(&im.generics, &mut rw);
        let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        let trt = im.trait_.as_ref().map(|(_, p, _)| {
          let mut p = p.clone();
          rw.visit_path_mut(&mut p);
          text(&p)
        });
        let mut st = (*im.self_ty).clone();
        rw.visit_type_mut(&mut st);
        let owner = json!({"kind": "impl", "ty": type_name(&im.self_ty), "ty_text": text(&st), "generics": gen,
          "where": wh, "trait": tr, "trait_text": trt, "module": module});
        if matches!(tr.as_deref(), Some("Add" | "Sub" | "Mul" | "BitOr" | "Not")) {
          ctx.op_output = im.items.iter().find_map(|x| match x {
            ImplItem::Type(t) if t.ident == "Output" => Some(t.ty.clone()),
            _ => None,
          });
        }
        for x in &im.items {
          if let ImplItem::Fn(f) = x {
            fn_record(ctx, &f.sig, Some(&f.block), &f.attrs, owner.clone(), &vis_str(&f.vis), f.span());
          }
        }
        ctx.op_output = None;
      }
      Item::Trait(t) => {
        if is_test(&t.attrs) {
          continue;
        }
        let owner = json!({"kind": "trait", "ty": t.ident.to_string(), "module": module,
          "generics": generics(&t.generics, &mut Rw::default()).0});
        for x in &t.items {
          if let TraitItem::Fn(f) = x {
            fn_record(ctx, &f.sig, f.default.as_ref(), &f.attrs, owner.clone(), "pub", f.span());
          }
        }
      }
      Item::Struct(s) => {
        if is_test(&s.attrs) {
          continue;
        }
        let mut s2 = s.clone();
        s2.attrs.clear();
        s2.vis = parse_quote!(pub);
        for f in s2.fields.iter_mut() {
          f.attrs.clear();
          f.vis = parse_quote!(pub);
        }
        let mut rw = Rw::default();
        rw.visit_item_struct_mut(&mut s2);
        ctx.out.push(json!({"item": "struct", "file": ctx.file, "line": s.span().start().line,
          "name": s.ident.to_string(), "text": text(&s2),
          "derives": s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<Vec<_>>() }));
      }
      Item::Enum(s) => {
        if is_test(&s.attrs) {
          continue;
        }
        let mut s2 = s.clone();
        s2.attrs.clear();
        s2.vis = parse_quote!(pub);
        for v in s2.variants.iter_mut() {
          v.attrs.clear();
          for f in v.fields.iter_mut() {
            f.attrs.clear();
          }
        }
        let mut rw = Rw::default();
        rw.visit_item_enum_mut(&mut s2);
        let vs: Vec<String> = s.variants.iter().map(|v| v.ident.to_string()).collect();
        ctx.out.push(json!({"item": "enum", "file": ctx.file, "line": s.span().start().line,
          "name": s.ident.to_string(), "text": text(&s2), "variants": vs,
          "derives": s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<Vec<_>>() }));
      }
      Item::Type(t) => {
        let mut t2 = t.clone();
        t2.attrs.clear();
        ctx.out.push(json!({"item": "type", "file": ctx.file, "name": t.ident.to_string(), "text": text(&t2)}));
      }
      Item::Const(c) => {
        let mut c2 = c.clone();
        c2.attrs.clear();
        ctx.out.push(json!({"item": "const", "file": ctx.file, "name": c.ident.to_string(), "text": text(&c2)}));
      }
      Item::Macro(m) => {
        let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        ctx.out.push(json!({"item": "macro", "file": ctx.file, "name": n,
          "def": m.ident.as_ref().map(|i| i.to_string()), "tokens": m.mac.tokens.to_string()}));
      }
      Item::Mod(m) => {
        if is_test(&m.attrs) {
          continue;
        }
        if let Some((_, items)) = &m.content {
          let name = if module.is_empty() { m.ident.to_string() } else { format!("{}::{}", module, m.ident) };
          walk(ctx, items, &name);
        }
      }
      _ => {}
    }
  }
}

fn main() {
  let mut args: Vec<String> = std::env::args().skip(1).collect();
  let mut parser_ops = false;
  let mut renames: BTreeMap<String, String> = BTreeMap::new();
  args.retain(|a| {
    if let Some(r) = a.strip_prefix("--rename=") {
      if let Some((x, y)) = r.split_once(':') {
        renames.insert(x.to_string(), y.to_string());
      }
      false
    } else if let Some(r) = a.strip_prefix("--alias=") {
      if let Some((x, y)) = r.split_once('=') {
        ALIASES.with(|l| l.borrow_mut().insert(x.to_string(), y.to_string()));
      }
      false
    } else if a == "--fmt" {
      FMT.with(|f| f.set(true));
      false
    } else if a == "--paths" {
      PATHS.with(|f| f.set(true));
      false
    } else if a == "--byte-text" {
      BYTE_TEXT.with(|f| f.set(true));
      false
    } else if a == "--bytes" {
      BYTES.with(|f| f.set(true));
      false
    } else if let Some(n) = a.strip_prefix("--lets=") {
      LETS.with(|l| *l.borrow_mut() = n.split(',').map(|x| x.to_string()).collect());
      false
    } else if a == "--for-loops" {
      FOR_LOOPS.with(|f| f.set(true));
      false
    } else if a == "--parser-ops" {
      parser_ops = true;
      false
    } else {
      true
    }
  });
  let mut all: Vec<Value> = vec![];
  let mut errors: BTreeMap<String, String> = BTreeMap::new();
  for f in &args {
    let src = match std::fs::read_to_string(f) {
      Ok(s) => s,
      Err(e) => {
        errors.insert(f.clone(), e.to_string());
        continue;
      }
    };
    match syn::parse_file(&src) {
      Ok(file) => {
        let mut ctx = Ctx { file: f.clone(), out: vec![], parser_ops, op_output: None, renames: renames.clone() };
        note_uses(&file.items);
        MACROS.with(|m| m.borrow_mut().clear());
        HOISTED.with(|m| m.borrow_mut().1.clear());
        note_macros(&file.items);
        walk(&mut ctx, &file.items, "");
        all.extend(ctx.out);
      }
      Err(e) => {
        errors.insert(f.clone(), e.to_string());
      }
    }
  }
  println!("{}", serde_json::to_string(&json!({"items": all, "errors": errors})).unwrap());
}
