//! The toy language as the statements describe it: trees, their text, their meaning. Knows nothing of the
//! implementation except how to hand it a tree.

use std::collections::BTreeMap;
use std::rc::Rc;
use toys_under_test::expr::Expr;
use toys_under_test::labelled_parameter::LabelledParameter;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
  Mul,
  Div,
  Mod,
  Add,
  Sub,
  And,
  Or,
  Le,
  Ge,
  Lt,
  Gt,
  Eq,
  Ne,
}
pub use Op::*;

pub const OPS: [Op; 13] = [Mul, Div, Mod, Add, Sub, And, Or, Le, Ge, Lt, Gt, Eq, Ne];

impl Op {
  pub fn text(self) -> &'static str {
    match self {
      Mul => "*",
      Div => "/",
      Mod => "%",
      Add => "+",
      Sub => "-",
      And => "&&",
      Or => "||",
      Le => "<=",
      Ge => ">=",
      Lt => "<",
      Gt => ">",
      Eq => "==",
      Ne => "!=",
    }
  }
  /// higher binds tighter
  pub fn level(self) -> u8 {
    match self {
      Mul | Div => 3,
      Mod => 2,
      Add | Sub => 1,
      _ => 0,
    }
  }
  fn build(self, l: Rc<Expr>, r: Rc<Expr>) -> Rc<Expr> {
    match self {
      Mul => Expr::of_multiply(l, r),
      Div => Expr::of_divide(l, r),
      Mod => Expr::of_mod(l, r),
      Add => Expr::of_add(l, r),
      Sub => Expr::of_subtract(l, r),
      And => Expr::of_and(l, r),
      Or => Expr::of_or(l, r),
      Le => Expr::of_less_or_equal(l, r),
      Ge => Expr::of_greater_or_equal(l, r),
      Lt => Expr::of_less_than(l, r),
      Gt => Expr::of_greater_than(l, r),
      Eq => Expr::of_equal_equal(l, r),
      Ne => Expr::of_not_equal(l, r),
    }
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum X {
  Int(i64),
  Bool(bool),
  Str(String),
  Arr(Vec<X>),
  Bin(Op, Rc<X>, Rc<X>),
  Var(String),
  Call(String, Vec<X>),
  LCall(String, Vec<(String, X)>),
  Paren(Rc<X>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum S {
  Print(X),
  Set(String, X),
  Ex(X),
  If(X, Rc<S>, Option<Rc<S>>),
  While(X, Rc<S>),
  For(String, X, X, Rc<S>),
  Block(Vec<S>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum D {
  Global(String, X),
  Fn(String, Vec<String>, Vec<S>),
}

pub fn i(n: i64) -> X {
  X::Int(n)
}
pub fn b(v: bool) -> X {
  X::Bool(v)
}
pub fn v(n: &str) -> X {
  X::Var(n.to_string())
}
pub fn bin(o: Op, l: X, r: X) -> X {
  X::Bin(o, Rc::new(l), Rc::new(r))
}
pub fn call(f: &str, a: Vec<X>) -> X {
  X::Call(f.to_string(), a)
}
pub fn lcall(f: &str, a: Vec<(&str, X)>) -> X {
  X::LCall(f.to_string(), a.into_iter().map(|(n, x)| (n.to_string(), x)).collect())
}
pub fn st(t: &str) -> X {
  X::Str(t.to_string())
}
pub fn paren(x: X) -> X {
  X::Paren(Rc::new(x))
}
pub fn set(n: &str, x: X) -> S {
  S::Set(n.to_string(), x)
}
pub fn iff(c: X, t: S, e: Option<S>) -> S {
  S::If(c, Rc::new(t), e.map(Rc::new))
}
pub fn whil(c: X, s: S) -> S {
  S::While(c, Rc::new(s))
}
pub fn fo(n: &str, l: X, h: X, s: S) -> S {
  S::For(n.to_string(), l, h, Rc::new(s))
}
pub fn func(n: &str, p: &[&str], s: Vec<S>) -> D {
  D::Fn(n.to_string(), p.iter().map(|x| x.to_string()).collect(), s)
}

// ------------------------------------------------------------------ as the implementation's tree

pub fn expr(x: &X) -> Rc<Expr> {
  match x {
    X::Int(n) => Expr::of_integer_literal(*n),
    X::Bool(b) => Expr::of_bool_literal(*b),
    X::Str(t) => Expr::of_string_literal(t.clone()),
    X::Arr(a) => Expr::of_array_literal(a.iter().map(expr).collect()),
    X::Bin(o, l, r) => o.build(expr(l), expr(r)),
    X::Var(n) => Expr::of_symbol(n.clone()),
    X::Call(f, a) => Expr::of_function_call(f.clone(), a.iter().map(expr).collect()),
    X::LCall(f, a) => Expr::of_labelled_call(f.clone(), a.iter().map(|(n, x)| LabelledParameter::new(n.clone(), expr(x))).collect()),
    X::Paren(x) => Rc::new(Expr::Parenthesized(expr(x))),
  }
}

pub fn stmt(s: &S) -> Rc<Expr> {
  match s {
    S::Print(x) => Expr::of_println(expr(x)),
    S::Set(n, x) => Expr::of_assignment(n.clone(), expr(x)),
    S::Ex(x) => expr(x),
    S::If(c, t, e) => Expr::of_if(expr(c), stmt(t), e.as_ref().map(|e| stmt(e))),
    S::While(c, s) => Expr::of_while(expr(c), stmt(s)),
    // what the implementation's own tests say a counting loop is
    S::For(n, l, h, s) => Expr::of_block(vec![
      Expr::of_assignment(n.clone(), expr(l)),
      Expr::of_while(
        Expr::of_less_than(Expr::of_symbol(n.clone()), expr(h)),
        Expr::of_block(vec![
          stmt(s),
          Expr::of_assignment(n.clone(), Expr::of_add(Expr::of_symbol(n.clone()), Expr::of_integer_literal(1))),
        ]),
      ),
    ]),
    S::Block(v) => block(v),
  }
}

pub fn block(v: &[S]) -> Rc<Expr> {
  Expr::of_block(v.iter().map(stmt).collect())
}

pub fn program(p: &[D]) -> Rc<Expr> {
  Rc::new(Expr::Program(
    p.iter()
      .map(|d| match d {
        D::Global(n, x) => Expr::of_global_variable_definition(n.clone(), expr(x)),
        D::Fn(n, ps, body) => Expr::of_function_definition(n.clone(), ps.clone(), block(body)),
      })
      .collect(),
  ))
}

// ------------------------------------------------------------------ as tokens

pub type Toks = Vec<String>;

fn put(out: &mut Toks, t: &str) {
  out.push(t.to_string())
}

fn list<T>(out: &mut Toks, a: &[T], f: &mut dyn FnMut(&mut Toks, &T)) {
  for (i, x) in a.iter().enumerate() {
    if i > 0 {
      put(out, ",");
    }
    f(out, x);
  }
}

pub fn toks_x(x: &X, out: &mut Toks) {
  match x {
    X::Int(n) => put(out, &n.to_string()),
    X::Bool(b) => put(out, if *b { "true" } else { "false" }),
    X::Str(t) => put(out, &quoted(t)),
    X::Arr(a) => {
      put(out, "[");
      list(out, a, &mut |o, x| toks_x(x, o));
      put(out, "]");
    }
    X::Bin(o, l, r) => {
      toks_x(l, out);
      put(out, o.text());
      toks_x(r, out);
    }
    X::Var(n) => put(out, n),
    X::Call(f, a) => {
      put(out, f);
      put(out, "(");
      list(out, a, &mut |o, x| toks_x(x, o));
      put(out, ")");
    }
    X::LCall(f, a) => {
      put(out, f);
      put(out, "[");
      list(out, a, &mut |o, (n, x)| {
        put(o, n);
        put(o, "=");
        toks_x(x, o);
      });
      put(out, "]");
    }
    X::Paren(x) => {
      put(out, "(");
      toks_x(x, out);
      put(out, ")");
    }
  }
}

pub fn quoted(t: &str) -> String {
  let mut o = String::from("\"");
  for c in t.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\t' => o.push_str("\\t"),
      '\r' => o.push_str("\\r"),
      '\u{8}' => o.push_str("\\b"),
      '\u{c}' => o.push_str("\\f"),
      c if c > '\u{fff}' => {
        let mut u = [0u16; 2];
        for n in c.encode_utf16(&mut u) {
          o.push_str(&format!("\\u{:04x}", n));
        }
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

pub fn toks_s(s: &S, out: &mut Toks) {
  match s {
    S::Print(x) => {
      put(out, "println");
      put(out, "(");
      toks_x(x, out);
      put(out, ")");
      put(out, ";");
    }
    S::Set(n, x) => {
      put(out, n);
      put(out, "=");
      toks_x(x, out);
      put(out, ";");
    }
    S::Ex(x) => {
      toks_x(x, out);
      put(out, ";");
    }
    S::If(c, t, e) => {
      put(out, "if");
      put(out, "(");
      toks_x(c, out);
      put(out, ")");
      toks_s(t, out);
      if let Some(e) = e {
        put(out, "else");
        toks_s(e, out);
      }
    }
    S::While(c, s) => {
      put(out, "while");
      put(out, "(");
      toks_x(c, out);
      put(out, ")");
      toks_s(s, out);
    }
    S::For(n, l, h, s) => {
      put(out, "for");
      put(out, "(");
      put(out, n);
      put(out, "in");
      toks_x(l, out);
      put(out, "to");
      toks_x(h, out);
      put(out, ")");
      toks_s(s, out);
    }
    S::Block(v) => {
      put(out, "{");
      v.iter().for_each(|s| toks_s(s, out));
      put(out, "}");
    }
  }
}

pub fn toks_d(d: &D, out: &mut Toks) {
  match d {
    D::Global(n, x) => {
      put(out, "global");
      put(out, n);
      put(out, "=");
      toks_x(x, out);
      put(out, ";");
    }
    D::Fn(n, p, body) => {
      put(out, "fn");
      put(out, n);
      put(out, "(");
      list(out, p, &mut |o, x| put(o, x));
      put(out, ")");
      put(out, "{");
      body.iter().for_each(|s| toks_s(s, out));
      put(out, "}");
    }
  }
}

pub fn toks(p: &[D]) -> Toks {
  let mut out = vec![];
  p.iter().for_each(|d| toks_d(d, &mut out));
  out
}

fn wordy(c: char) -> bool {
  c.is_ascii_alphanumeric() || c == '_'
}

/// The blank that must stand between two tokens for them to stay two.
pub fn needs_gap(l: &str, r: &str) -> bool {
  let (a, z) = (l.chars().last().unwrap(), r.chars().next().unwrap());
  let glue = |c: char| "<>=!&|".contains(c);
  (wordy(a) && wordy(z)) || (glue(a) && glue(z))
}

/// The tokens with `gap(i)` in front of token i (and at the end), at least a blank where two would melt into one.
pub fn join(t: &[String], gap: &dyn Fn(usize) -> &'static str) -> String {
  let mut o = String::new();
  for (i, x) in t.iter().enumerate() {
    let g = gap(i);
    if g.is_empty() && i > 0 && needs_gap(&t[i - 1], x) {
      o.push(' ');
    }
    o.push_str(g);
    o.push_str(x);
  }
  o.push_str(gap(t.len()));
  o
}

// ------------------------------------------------------------------ grouping

/// The tree of operand op operand op ... by the precedence rule alone: the last operator of the loosest level is
/// the outermost.
pub fn group(xs: &[X], ops: &[Op]) -> X {
  if ops.is_empty() {
    return xs[0].clone();
  }
  let low = ops.iter().map(|o| o.level()).min().unwrap();
  let k = ops.iter().rposition(|o| o.level() == low).unwrap();
  bin(ops[k], group(&xs[..=k], &ops[..k]), group(&xs[k + 1..], &ops[k + 1..]))
}

// ------------------------------------------------------------------ recognising tokens

const KEYWORDS: [&str; 11] = ["fn", "global", "if", "else", "while", "for", "in", "to", "println", "true", "false"];

struct Rec<'a> {
  t: &'a [String],
  /// whether a keyword may also be a name
  lax: bool,
}

type R<T> = Option<(T, usize)>;

impl<'a> Rec<'a> {
  fn is(&self, p: usize, w: &str) -> Option<usize> {
    (self.t.get(p).map(|s| s.as_str()) == Some(w)).then_some(p + 1)
  }
  fn name(&self, p: usize) -> R<String> {
    let t = self.t.get(p)?;
    let c = t.chars().next()?;
    let word = c.is_ascii_alphabetic() || c == '_';
    (word && (self.lax || !KEYWORDS.contains(&t.as_str()))).then(|| (t.clone(), p + 1))
  }
  fn sep<T>(&self, p: usize, item: &dyn Fn(usize) -> R<T>) -> (Vec<T>, usize) {
    let mut out = vec![];
    let mut p = p;
    loop {
      let q = if out.is_empty() { Some(p) } else { self.is(p, ",") };
      match q.and_then(item) {
        Some((x, q)) => {
          out.push(x);
          p = q;
        }
        None => return (out, p),
      }
    }
  }
  fn primary(&self, p: usize) -> R<X> {
    let t = self.t.get(p)?.clone();
    if let Some(q) = self.is(p, "(") {
      let (x, q) = self.expr(q)?;
      return Some((paren(x), self.is(q, ")")?));
    }
    if let (Ok(n), false) = (t.parse::<i64>(), t.starts_with('+')) {
      return Some((i(n), p + 1));
    }
    if t.len() > 1 && t.starts_with('"') {
      return Some((X::Str(t[1..t.len() - 1].to_string()), p + 1));
    }
    if let Some((f, q)) = self.name(p) {
      if let Some(q) = self.is(q, "(") {
        let (a, q) = self.sep(q, &|p| self.expr(p));
        if let Some(q) = self.is(q, ")") {
          return Some((X::Call(f, a), q));
        }
      }
      if let Some(q) = self.is(q, "[") {
        let (a, q) = self.sep(q, &|p| {
          let (n, q) = self.name(p)?;
          let (x, q) = self.expr(self.is(q, "=")?)?;
          Some(((n, x), q))
        });
        if let (false, Some(q)) = (a.is_empty(), self.is(q, "]")) {
          return Some((X::LCall(f, a), q));
        }
      }
    }
    if let Some(q) = self.is(p, "[") {
      let (a, q) = self.sep(q, &|p| self.expr(p));
      return Some((X::Arr(a), self.is(q, "]")?));
    }
    if t == "true" || t == "false" {
      return Some((b(t == "true"), p + 1));
    }
    let (n, q) = self.name(p)?;
    Some((X::Var(n), q))
  }
  fn expr(&self, p: usize) -> R<X> {
    let (x, mut p) = self.primary(p)?;
    let (mut xs, mut ops) = (vec![x], vec![]);
    while let Some(o) = self.t.get(p).and_then(|t| OPS.iter().find(|o| o.text() == t)) {
      let (x, q) = self.primary(p + 1)?;
      ops.push(*o);
      xs.push(x);
      p = q;
    }
    Some((group(&xs, &ops), p))
  }
  fn stmts(&self, mut p: usize) -> (Vec<S>, usize) {
    let mut out = vec![];
    while let Some((s, q)) = self.stmt(p) {
      out.push(s);
      p = q;
    }
    (out, p)
  }
  fn stmt(&self, p: usize) -> R<S> {
    self
      .keyword_stmt(p)
      .or_else(|| {
        let (n, q) = self.name(p)?;
        let (x, q) = self.expr(self.is(q, "=")?)?;
        Some((S::Set(n, x), self.is(q, ";")?))
      })
      .or_else(|| {
        let (x, q) = self.expr(p)?;
        Some((S::Ex(x), self.is(q, ";")?))
      })
      .or_else(|| {
        let (v, q) = self.stmts(self.is(p, "{")?);
        Some((S::Block(v), self.is(q, "}")?))
      })
  }
  fn keyword_stmt(&self, p: usize) -> R<S> {
    let q = self.is(p + 1, "(")?;
    match self.t.get(p)?.as_str() {
      "println" => {
        let (x, q) = self.expr(q)?;
        Some((S::Print(x), self.is(self.is(q, ")")?, ";")?))
      }
      "while" => {
        let (c, q) = self.expr(q)?;
        let (s, q) = self.stmt(self.is(q, ")")?)?;
        Some((whil(c, s), q))
      }
      "if" => {
        let (c, q) = self.expr(q)?;
        let (s, q) = self.stmt(self.is(q, ")")?)?;
        match self.is(q, "else").and_then(|q| self.stmt(q)) {
          Some((e, q)) => Some((iff(c, s, Some(e)), q)),
          None => Some((iff(c, s, None), q)),
        }
      }
      "for" => {
        let (n, q) = self.name(q)?;
        let (l, q) = self.expr(self.is(q, "in")?)?;
        let (h, q) = self.expr(self.is(q, "to")?)?;
        let (s, q) = self.stmt(self.is(q, ")")?)?;
        Some((fo(&n, l, h, s), q))
      }
      _ => None,
    }
  }
  fn def(&self, p: usize) -> R<D> {
    if let Some(q) = self.is(p, "global") {
      let (n, q) = self.name(q)?;
      let (x, q) = self.expr(self.is(q, "=")?)?;
      return Some((D::Global(n, x), self.is(q, ";")?));
    }
    let (n, q) = self.name(self.is(p, "fn")?)?;
    let (ps, q) = self.sep(self.is(q, "(")?, &|p| self.name(p));
    let (body, q) = self.stmts(self.is(self.is(q, ")")?, "{")?);
    Some((D::Fn(n, ps, body), self.is(q, "}")?))
  }
  fn program(&self) -> Option<Vec<D>> {
    let (mut out, mut p) = (vec![], 0);
    while p < self.t.len() {
      let (d, q) = self.def(p)?;
      out.push(d);
      p = q;
    }
    Some(out)
  }
}

pub enum Reading {
  Program(Vec<D>),
  NotAProgram,
  /// only a program if keywords are names, which the statement leaves open
  Open,
}

pub fn recognise(t: &[String]) -> Reading {
  match (Rec { t, lax: false }.program(), Rec { t, lax: true }.program()) {
    (Some(p), Some(q)) if p == q => Reading::Program(p),
    (None, None) => Reading::NotAProgram,
    _ => Reading::Open,
  }
}

// ------------------------------------------------------------------ meaning

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
  Int(i64),
  Bool(bool),
  Str(String),
  Arr(Vec<Val>),
  /// the statement gives no value (a loop, an untaken if, an empty block)
  Any,
}

impl std::fmt::Display for Val {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    match self {
      Val::Int(n) => write!(f, "{}", n),
      Val::Bool(b) => write!(f, "{}", b),
      Val::Str(t) => write!(f, "{}", t),
      Val::Arr(a) => write!(f, "[{}]", a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
      Val::Any => write!(f, "?"),
    }
  }
}

/// What the statements do not define: type errors, unbound names, overflow, division by zero, endless loops ...
pub struct Open;
pub type E<T> = Result<T, Open>;

pub struct Machine<'a> {
  globals: BTreeMap<String, Val>,
  locals: Option<BTreeMap<String, Val>>,
  functions: BTreeMap<&'a str, (&'a [String], &'a [S])>,
  pub printed: Vec<String>,
  fuel: u32,
  depth: u32,
  deepest: u32,
}

impl<'a> Machine<'a> {
  pub fn new() -> Self {
    Machine::within(400, 12)
  }
  pub fn within(fuel: u32, deepest: u32) -> Self {
    Machine { globals: BTreeMap::new(), locals: None, functions: BTreeMap::new(), printed: vec![], fuel, depth: 0, deepest }
  }
  pub fn run(&mut self, p: &'a [D]) -> E<Val> {
    for d in p {
      match d {
        D::Global(n, x) => {
          let val = self.expr(x)?;
          self.globals.insert(n.clone(), val);
        }
        D::Fn(n, ps, body) => {
          if self.functions.insert(n, (ps, body)).is_some() {
            return Err(Open);
          }
        }
      }
    }
    self.call("main", vec![])
  }
  fn call(&mut self, f: &str, args: Vec<(Option<String>, Val)>) -> E<Val> {
    let (ps, body) = *self.functions.get(f).ok_or(Open)?;
    self.depth += 1;
    if args.len() != ps.len() || self.depth > self.deepest || self.fuel == 0 {
      return Err(Open);
    }
    let mut scope = BTreeMap::new();
    for (i, (label, val)) in args.into_iter().enumerate() {
      let n = label.unwrap_or_else(|| ps[i].clone());
      if !ps.contains(&n) || scope.insert(n, val).is_some() {
        return Err(Open);
      }
    }
    let outer = self.locals.replace(scope);
    let r = self.block(body)?;
    self.locals = outer;
    self.depth -= 1;
    Ok(r)
  }
  fn get(&self, n: &str) -> E<Val> {
    match self.locals.as_ref().and_then(|l| l.get(n)).or_else(|| self.globals.get(n)) {
      None | Some(Val::Any) => Err(Open),
      Some(v) => Ok(v.clone()),
    }
  }
  fn put(&mut self, n: &str, val: Val) {
    let scope = match &mut self.locals {
      Some(l) if l.contains_key(n) || !self.globals.contains_key(n) => l,
      _ => &mut self.globals,
    };
    scope.insert(n.to_string(), val);
  }
  pub fn block(&mut self, v: &'a [S]) -> E<Val> {
    let mut r = Val::Any;
    for s in v {
      r = self.stmt(s)?;
    }
    Ok(r)
  }
  fn cond(&mut self, x: &'a X) -> E<bool> {
    match self.expr(x)? {
      Val::Bool(b) => Ok(b),
      _ => Err(Open),
    }
  }
  fn int(&mut self, x: &'a X) -> E<i64> {
    match self.expr(x)? {
      Val::Int(n) => Ok(n),
      _ => Err(Open),
    }
  }
  fn burn(&mut self) -> E<()> {
    self.fuel = self.fuel.checked_sub(1).ok_or(Open)?;
    Ok(())
  }
  pub fn stmt(&mut self, s: &'a S) -> E<Val> {
    self.burn()?;
    Ok(match s {
      S::Print(x) => {
        let v = self.expr(x)?;
        if v == Val::Any {
          return Err(Open);
        }
        self.printed.push(v.to_string());
        v
      }
      S::Set(n, x) => {
        let v = self.expr(x)?;
        self.put(n, v.clone());
        v
      }
      S::Ex(x) => self.expr(x)?,
      S::If(c, t, e) => {
        if self.cond(c)? {
          self.stmt(t)?
        } else if let Some(e) = e {
          self.stmt(e)?
        } else {
          Val::Any
        }
      }
      S::While(c, body) => {
        while self.cond(c)? {
          self.burn()?;
          self.stmt(body)?;
        }
        Val::Any
      }
      S::For(n, l, h, body) => {
        let (from, to) = (self.int(l)?, self.int(h)?);
        self.put(n, Val::Int(from));
        for k in from..to {
          self.burn()?;
          self.put(n, Val::Int(k));
          self.stmt(body)?;
          // what a body that changes the counter or the bound does is open
          if self.get(n)? != Val::Int(k) || self.int(h)? != to {
            return Err(Open);
          }
        }
        self.put(n, Val::Any);
        Val::Any
      }
      S::Block(v) => self.block(v)?,
    })
  }
  pub fn expr(&mut self, x: &'a X) -> E<Val> {
    Ok(match x {
      X::Int(n) => Val::Int(*n),
      X::Bool(b) => Val::Bool(*b),
      X::Str(t) => Val::Str(t.clone()),
      X::Arr(a) => {
        let mut out = vec![];
        for x in a {
          out.push(self.expr(x)?);
        }
        if out.contains(&Val::Any) {
          return Err(Open);
        }
        Val::Arr(out)
      }
      X::Var(n) => self.get(n)?,
      X::Paren(x) => self.expr(x)?,
      X::Call(f, a) => {
        self.burn()?;
        let mut vals = vec![];
        for x in a {
          vals.push((None, self.expr(x)?));
        }
        self.call(f, vals)?
      }
      X::LCall(f, a) => {
        self.burn()?;
        let mut vals = vec![];
        for (n, x) in a {
          vals.push((Some(n.clone()), self.expr(x)?));
        }
        self.call(f, vals)?
      }
      X::Bin(And | Or, _, r) if has_call(r) => {
        // whether the right side is evaluated when the left side decides is open
        return Err(Open);
      }
      X::Bin(o @ (And | Or), l, r) => {
        let (l, r) = (self.cond(l)?, self.cond(r)?);
        Val::Bool(if *o == And { l && r } else { l || r })
      }
      X::Bin(o, l, r) => {
        let (l, r) = (self.int(l)?, self.int(r)?);
        let n = |v: Option<i64>| v.map(Val::Int).ok_or(Open);
        match o {
          Add => n(l.checked_add(r))?,
          Sub => n(l.checked_sub(r))?,
          Mul => n(l.checked_mul(r))?,
          // division truncates towards zero and the remainder belongs to it; by zero is open
          Div => n(l.checked_div(r))?,
          Mod => n(l.checked_rem(r))?,
          Le => Val::Bool(l <= r),
          Ge => Val::Bool(l >= r),
          Lt => Val::Bool(l < r),
          Gt => Val::Bool(l > r),
          Eq => Val::Bool(l == r),
          Ne => Val::Bool(l != r),
          And | Or => unreachable!(),
        }
      }
    })
  }
}

fn has_call(x: &X) -> bool {
  match x {
    X::Call(..) | X::LCall(..) => true,
    X::Bin(_, l, r) => has_call(l) || has_call(r),
    X::Paren(x) => has_call(x),
    X::Arr(a) => a.iter().any(has_call),
    _ => false,
  }
}

// ------------------------------------------------------------------ parentheses where the text needs them

pub fn fit_x(x: &X) -> X {
  match x {
    X::Bin(o, l, r) => {
      let (l, r) = (fit_x(l), fit_x(r));
      let l = if matches!(&l, X::Bin(p, ..) if p.level() < o.level()) { paren(l) } else { l };
      let r = if matches!(&r, X::Bin(p, ..) if p.level() <= o.level()) { paren(r) } else { r };
      bin(*o, l, r)
    }
    X::Arr(a) => X::Arr(a.iter().map(fit_x).collect()),
    X::Call(f, a) => X::Call(f.clone(), a.iter().map(fit_x).collect()),
    X::LCall(f, a) => X::LCall(f.clone(), a.iter().map(|(n, x)| (n.clone(), fit_x(x))).collect()),
    X::Paren(x) => paren(fit_x(x)),
    x => x.clone(),
  }
}

pub fn fit_s(s: &S) -> S {
  let f = |s: &Rc<S>| Rc::new(fit_s(s));
  match s {
    S::Print(x) => S::Print(fit_x(x)),
    S::Set(n, x) => S::Set(n.clone(), fit_x(x)),
    S::Ex(x) => S::Ex(fit_x(x)),
    S::If(c, t, e) => S::If(fit_x(c), f(t), e.as_ref().map(f)),
    S::While(c, s) => S::While(fit_x(c), f(s)),
    S::For(n, l, h, s) => S::For(n.clone(), fit_x(l), fit_x(h), f(s)),
    S::Block(v) => S::Block(v.iter().map(fit_s).collect()),
  }
}

pub fn fit(p: &[D]) -> Vec<D> {
  p.iter()
    .map(|d| match d {
      D::Global(n, x) => D::Global(n.clone(), fit_x(x)),
      D::Fn(n, ps, body) => D::Fn(n.clone(), ps.clone(), body.iter().map(fit_s).collect()),
    })
    .collect()
}
