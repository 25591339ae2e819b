//! Parser terms: a small language of combinator programs, its builder into real parsers and its
//! reference interpreter (a direct transcription of the documented semantics over a slice and an
//! index; shares no code with the crate under test).

use oni_comb_parser_rs::prelude::*;
use std::cell::Cell;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
  U,
  C(char),
  S(String),
  L(Vec<V>),
  P(Box<V>, Box<V>),
  B(bool),
  N(usize),
  None,
  Some(Box<V>),
  Op(u8),
  Bin(u8, Box<V>, Box<V>),
}

impl V {
  pub fn pair(a: V, b: V) -> V {
    V::P(Box::new(a), Box::new(b))
  }
  pub fn some(a: V) -> V {
    V::Some(Box::new(a))
  }
  pub fn s(x: &[char]) -> V {
    V::S(x.iter().collect())
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rng {
  Many0,
  Many1,
  NM(usize, usize),
  Count(usize),
  Half(usize, usize), // n..m
  To(usize),          // ..m
  ToInc(usize),       // ..=m
  From(usize),        // n..
  Full,               // ..
  Inc(usize, usize),  // n..=m via repeat()/of_rep_sep
  Exact(usize),       // plain usize via repeat()
}

impl Rng {
  pub fn bounds(self) -> (usize, Option<usize>) {
    match self {
      Rng::Many0 | Rng::Full => (0, None),
      Rng::Many1 => (1, None),
      Rng::NM(n, m) | Rng::Inc(n, m) => (n, Some(m)),
      Rng::Count(n) | Rng::Exact(n) => (n, Some(n)),
      Rng::Half(n, m) => (n, Some(m.saturating_sub(1))),
      Rng::To(m) => (0, Some(m.saturating_sub(1))),
      Rng::ToInc(m) => (0, Some(m)),
      Rng::From(n) => (n, None),
    }
  }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
  // leaves
  Elm(char),
  Any,
  NoneOf(&'static str),
  Tag(&'static str),
  Seq(&'static [char]),
  Unit,
  Succ(usize),
  FailU,
  FailC,
  End,
  Take(usize),
  Skip(usize),
  // unary
  Attempt(Box<T>),
  Opt(Box<T>),
  Exists(Box<T>),
  Not(Box<T>),
  Peek(Box<T>),
  Collect(Box<T>),
  Discard(Box<T>),
  Last(Box<T>),
  Next(Box<T>),
  MapTag(Box<T>),
  FilterTrueish(Box<T>),
  FilterNotTrueish(Box<T>),
  Conv(Box<T>),
  Name(Box<T>),
  Log(Box<T>, u8),
  Cache(Box<T>),
  Lazy(Box<T>),
  Rep(Box<T>, Rng),
  // binary
  Or(Box<T>, Box<T>),
  Then(Box<T>, Box<T>),
  SkipL(Box<T>, Box<T>),
  SkipR(Box<T>, Box<T>),
  Bind(Box<T>, Box<T>),
  /// value-dependent continuation: trueish values continue with the 1st, others with the 2nd
  BindIf(Box<T>, Box<T>, Box<T>),
  RepSep(Box<T>, Box<T>, Rng),
  // ternary
  Surround(Box<T>, Box<T>, Box<T>),
  // chains: operand, operator char parser
  ChainL1(Box<T>, Box<T>),
  ChainR1(Box<T>, Box<T>),
  ScanR1(Box<T>, Box<T>),
  ChainL0(Box<T>, Box<T>),
  ChainR0(Box<T>, Box<T>),
  RestL1(Box<T>, Box<T>),
  RestR1(Box<T>, Box<T>),
}

impl T {
  pub fn show(&self) -> String {
    use T::*;
    let s = |x: &T| x.show();
    match self {
      Elm(c) => format!("elm({:?})", c),
      Any => "any".into(),
      NoneOf(x) => format!("none_of({:?})", x),
      Tag(x) => format!("tag({:?})", x),
      Seq(x) => format!("seq({:?})", x.iter().collect::<String>()),
      Unit => "unit".into(),
      Succ(n) => format!("succ({})", n),
      FailU => "fail".into(),
      FailC => "fail!".into(),
      End => "end".into(),
      Take(n) => format!("take({})", n),
      Skip(n) => format!("skip({})", n),
      Attempt(a) => format!("{}.attempt", s(a)),
      Opt(a) => format!("{}.opt", s(a)),
      Exists(a) => format!("{}.exists", s(a)),
      Not(a) => format!("{}.not", s(a)),
      Peek(a) => format!("{}.peek", s(a)),
      Collect(a) => format!("{}.collect", s(a)),
      Discard(a) => format!("{}.discard", s(a)),
      Last(a) => format!("{}.last_offset", s(a)),
      Next(a) => format!("{}.next_offset", s(a)),
      MapTag(a) => format!("{}.map", s(a)),
      FilterTrueish(a) => format!("{}.filter", s(a)),
      FilterNotTrueish(a) => format!("{}.filter_not", s(a)),
      Conv(a) => format!("{}.map_res", s(a)),
      Name(a) => format!("{}.name", s(a)),
      Log(a, l) => format!("{}.log{}", s(a), l),
      Cache(a) => format!("{}.cache", s(a)),
      Lazy(a) => format!("lazy({})", s(a)),
      Rep(a, r) => format!("{}.{:?}", s(a), r),
      Or(a, b) => format!("({} | {})", s(a), s(b)),
      Then(a, b) => format!("({} + {})", s(a), s(b)),
      SkipL(a, b) => format!("({} * {})", s(a), s(b)),
      SkipR(a, b) => format!("({} - {})", s(a), s(b)),
      Bind(a, b) => format!("({} >>= {})", s(a), s(b)),
      BindIf(a, b, c) => format!("({} >>=? {} : {})", s(a), s(b), s(c)),
      RepSep(a, b, r) => format!("{}.sep({}).{:?}", s(a), s(b), r),
      Surround(a, b, c) => format!("surround({}, {}, {})", s(a), s(b), s(c)),
      ChainL1(a, b) => format!("chain_left1({}, {})", s(a), s(b)),
      ChainR1(a, b) => format!("chain_right1({}, {})", s(a), s(b)),
      ScanR1(a, b) => format!("scan_right1({}, {})", s(a), s(b)),
      ChainL0(a, b) => format!("chain_left0({}, {})", s(a), s(b)),
      ChainR0(a, b) => format!("chain_right0({}, {})", s(a), s(b)),
      RestL1(a, b) => format!("rest_left1({}, {})", s(a), s(b)),
      RestR1(a, b) => format!("rest_right1({}, {})", s(a), s(b)),
    }
  }
}

pub fn bx(t: T) -> Box<T> {
  Box::new(t)
}

/// The user predicate used by filters, binds and conversions.
pub fn trueish(v: &V) -> bool {
  match v {
    V::U => true,
    V::C(c) => *c == 'a',
    V::S(s) => s.len() % 2 == 1,
    V::L(l) => l.len() % 2 == 1,
    V::P(a, b) => trueish(a) && !trueish(b),
    V::B(b) => *b,
    V::N(n) => *n % 2 == 1,
    V::None => false,
    V::Some(v) => trueish(v),
    V::Op(_) | V::Bin(..) => true,
  }
}

fn opf(o: V) -> impl Fn(V, V) -> V + Clone {
  move |a, b| match &o {
    V::C(c) => V::Bin(*c as u8, Box::new(a), Box::new(b)),
    _ => V::Bin(b'?', Box::new(a), Box::new(b)),
  }
}

thread_local! {
  /// incremented by every real execution of a Succ(k>=100) leaf: detects evaluation of a branch
  pub static PROBE: Cell<u64> = const { Cell::new(0) };
}

pub fn build<'a>(t: &T) -> Parser<'a, char, V> {
  use T::*;
  match t {
    Elm(c) => elm(*c).map(V::C),
    Any => elm_any().map(V::C),
    NoneOf(s) => none_of::<char, str>(s).map(V::C),
    Tag(s) => tag(s).map(V::S),
    Seq(s) => seq(s).map(|v: Vec<char>| V::s(&v)),
    Unit => unit().map(|_| V::U),
    Succ(n) if *n >= 100 => {
      let n = *n;
      successful_lazy(move || {
        PROBE.with(|p| p.set(p.get() + 1));
        V::N(n)
      })
    }
    Succ(n) => successful(V::N(*n)),
    FailU => failed(ParseError::of_custom(0, None, "u".into()), CommittedStatus::Uncommitted),
    FailC => failed(ParseError::of_custom(0, None, "c".into()), CommittedStatus::Committed),
    End => end().map(|_| V::U),
    Take(n) => take(*n).map(|s: &[char]| V::s(s)),
    Skip(n) => skip(*n).map(|_| V::U),
    Attempt(a) => build(a).attempt(),
    Opt(a) => build(a).opt().map(|o| match o {
      Some(v) => V::some(v),
      Option::None => V::None,
    }),
    Exists(a) => build(a).exists().map(V::B),
    Not(a) => OperatorParser::not(build(a)).map(|_| V::U),
    Peek(a) => build(a).peek(),
    Collect(a) => build(a).collect().map(|s| V::s(s)),
    Discard(a) => build(a).discard().map(|_| V::U),
    Last(a) => build(a).last_offset().map(V::N),
    Next(a) => build(a).next_offset().map(V::N),
    MapTag(a) => build(a).map(|v| V::L(vec![v])),
    FilterTrueish(a) => build(a).with_filter(|v| trueish(v)),
    FilterNotTrueish(a) => build(a).with_filter_not(|v| trueish(v)),
    Conv(a) => build(a).map_res(|v| if trueish(&v) { Ok(V::L(vec![v])) } else { Err("no") }),
    Name(a) => build(a).name("nm"),
    Log(a, l) => match l {
      0 => build(a).debug("lg"),
      1 => build(a).info("lg"),
      2 => build(a).warn("lg"),
      _ => build(a).error("lg"),
    },
    Cache(a) => build(a).cache(),
    Lazy(a) => {
      let a = a.clone();
      lazy(move || build(&a))
    }
    Rep(a, r) => {
      let p = build(a);
      match *r {
        Rng::Many0 => p.of_many0(),
        Rng::Many1 => p.of_many1(),
        Rng::NM(n, m) => p.of_many_n_m(n, m),
        Rng::Count(n) => p.of_count(n),
        Rng::Half(n, m) => p.repeat(n..m),
        Rng::To(m) => p.repeat(..m),
        Rng::ToInc(m) => p.repeat(..=m),
        Rng::From(n) => p.repeat(n..),
        Rng::Full => p.repeat(..),
        Rng::Inc(n, m) => p.repeat(n..=m),
        Rng::Exact(n) => p.repeat(n),
      }
      .map(V::L)
    }
    RepSep(a, b, r) => {
      let p = build(a);
      let s = build(b);
      match *r {
        Rng::Many0 => p.of_many0_sep(s),
        Rng::Many1 => p.of_many1_sep(s),
        Rng::NM(n, m) => p.of_many_n_m_sep(n, m, s),
        Rng::Count(n) => p.of_count_sep(n, s),
        Rng::Half(n, m) => p.of_rep_sep(n..m, Some(s)),
        Rng::To(m) => p.of_rep_sep(..m, Some(s)),
        Rng::ToInc(m) => p.of_rep_sep(..=m, Some(s)),
        Rng::From(n) => p.of_rep_sep(n.., Some(s)),
        Rng::Full => p.of_rep_sep(.., Some(s)),
        Rng::Inc(n, m) => p.of_rep_sep(n..=m, Some(s)),
        Rng::Exact(n) => p.of_rep_sep(n, Some(s)),
      }
      .map(V::L)
    }
    Or(a, b) => build(a).or(build(b)),
    Then(a, b) => build(a).and_then(build(b)).map(|(x, y)| V::pair(x, y)),
    SkipL(a, b) => build(a).skip_left(build(b)),
    SkipR(a, b) => build(a).skip_right(build(b)),
    Bind(a, b) => {
      let b = build(b);
      build(a).flat_map(move |x| b.clone().map(move |y| V::pair(x.clone(), y)))
    }
    BindIf(a, b, c) => {
      let b = build(b);
      let c = build(c);
      build(a).flat_map(move |x| if trueish(&x) { b.clone() } else { c.clone() })
    }
    Surround(a, b, c) => build(b).surround(build(a), build(c)),
    ChainL1(a, o) => build(a).chain_left1(build(o).map(opf)),
    ChainR1(a, o) => build(a).chain_right1(build(o).map(opf)),
    ScanR1(a, o) => build(a).scan_right1(build(o).map(opf)),
    ChainL0(a, o) => build(a).chain_left0(build(o).map(opf), V::N(9)),
    ChainR0(a, o) => build(a).chain_right0(build(o).map(opf), V::N(9)),
    RestL1(a, o) => build(a).rest_left1(build(o).map(opf), V::N(9)),
    RestR1(a, o) => build(a).rest_right1(build(o).map(opf), V::N(9)),
  }
}

/// Ok(value, consumed) or Err(committed)
pub type R = Result<(V, usize), bool>;

pub struct Model<'i> {
  pub input: &'i [char],
  pub steps: u64,
  pub probes: u64,
}

impl<'i> Model<'i> {
  pub fn new(input: &'i [char]) -> Self {
    Model { input, steps: 0, probes: 0 }
  }

  pub fn eval(&mut self, t: &T, pos: usize) -> R {
    use T::*;
    self.steps += 1;
    let rest = &self.input[pos..];
    match t {
      Elm(c) => match rest.first() {
        Some(x) if x == c => Ok((V::C(*x), 1)),
        _ => Err(false),
      },
      Any => match rest.first() {
        Some(x) => Ok((V::C(*x), 1)),
        _ => Err(false),
      },
      NoneOf(s) => match rest.first() {
        Some(x) if !s.contains(*x) => Ok((V::C(*x), 1)),
        _ => Err(false),
      },
      Tag(s) => self.lit(&s.chars().collect::<Vec<_>>(), pos),
      Seq(s) => self.lit(s, pos),
      Unit => Ok((V::U, 0)),
      Succ(n) => {
        if *n >= 100 {
          self.probes += 1;
        }
        Ok((V::N(*n), 0))
      }
      FailU => Err(false),
      FailC => Err(true),
      End => {
        if rest.is_empty() {
          Ok((V::U, 0))
        } else {
          Err(false)
        }
      }
      Take(n) => {
        if rest.len() >= *n {
          Ok((V::s(&rest[..*n]), *n))
        } else {
          Err(false)
        }
      }
      Skip(n) => {
        if rest.len() >= *n {
          Ok((V::U, *n))
        } else {
          Err(false)
        }
      }
      Attempt(a) => self.eval(a, pos).map_err(|_| false),
      Opt(a) => Ok(match self.eval(a, pos) {
        Ok((v, n)) => (V::some(v), n),
        Err(_) => (V::None, 0),
      }),
      Exists(a) => Ok((V::B(self.eval(a, pos).is_ok()), 0)),
      Not(a) => match self.eval(a, pos) {
        Ok(_) => Err(false),
        Err(_) => Ok((V::U, 0)),
      },
      Peek(a) => self.eval(a, pos).map(|(v, _)| (v, 0)),
      Collect(a) => self.eval(a, pos).map(|(_, n)| (V::s(&rest[..n]), n)),
      Discard(a) => self.eval(a, pos).map(|(_, n)| (V::U, n)),
      Last(a) => self.eval(a, pos).map(|(_, n)| (V::N((pos + n).saturating_sub(1)), n)),
      Next(a) => self.eval(a, pos).map(|(_, n)| (V::N(pos + n), n)),
      MapTag(a) => self.eval(a, pos).map(|(v, n)| (V::L(vec![v]), n)),
      FilterTrueish(a) => self.eval(a, pos).and_then(|(v, n)| if trueish(&v) { Ok((v, n)) } else { Err(false) }),
      FilterNotTrueish(a) => self.eval(a, pos).and_then(|(v, n)| if trueish(&v) { Err(false) } else { Ok((v, n)) }),
      Conv(a) => {
        self.eval(a, pos).and_then(|(v, n)| if trueish(&v) { Ok((V::L(vec![v]), n)) } else { Err(false) })
      }
      Name(a) | Log(a, _) | Cache(a) | Lazy(a) => self.eval(a, pos),
      Rep(a, r) => self.rep(a, Option::None, *r, pos),
      RepSep(a, b, r) => self.rep(a, Some(b), *r, pos),
      Or(a, b) => match self.eval(a, pos) {
        Err(false) => self.eval(b, pos),
        x => x,
      },
      Then(a, b) => {
        let (x, n) = self.eval(a, pos)?;
        let (y, m) = self.eval(b, pos + n)?;
        Ok((V::pair(x, y), n + m))
      }
      SkipL(a, b) => {
        let (_, n) = self.eval(a, pos)?;
        let (y, m) = self.eval(b, pos + n)?;
        Ok((y, n + m))
      }
      SkipR(a, b) => {
        let (x, n) = self.eval(a, pos)?;
        let (_, m) = self.eval(b, pos + n)?;
        Ok((x, n + m))
      }
      Surround(a, b, c) => {
        let (_, n) = self.eval(a, pos)?;
        let (y, m) = self.eval(b, pos + n)?;
        let (_, k) = self.eval(c, pos + n + m)?;
        Ok((y, n + m + k))
      }
      Bind(a, b) => {
        let (x, n) = self.eval(a, pos)?;
        let (y, m) = self.eval(b, pos + n).map_err(|c| c || n != 0)?;
        Ok((V::pair(x, y), n + m))
      }
      BindIf(a, b, c) => {
        let (x, n) = self.eval(a, pos)?;
        let k = if trueish(&x) { b } else { c };
        let (y, m) = self.eval(k, pos + n).map_err(|c| c || n != 0)?;
        Ok((y, n + m))
      }
      ChainL1(a, o) => {
        let (x, n) = self.eval(a, pos)?;
        let (y, m) = self.rest_left(a, o, x, pos + n).map_err(|c| c || n != 0)?;
        Ok((y, n + m))
      }
      ChainR1(a, o) | ScanR1(a, o) => self.chain_right(a, o, pos),
      ChainL0(a, o) => match self.eval(&ChainL1(a.clone(), o.clone()), pos) {
        Err(false) => Ok((V::N(9), 0)),
        x => x,
      },
      ChainR0(a, o) => match self.chain_right(a, o, pos) {
        Err(false) => Ok((V::N(9), 0)),
        x => x,
      },
      RestL1(a, o) => self.rest_left(a, o, V::N(9), pos),
      RestR1(a, o) => self.rest_right(a, o, V::N(9), pos),
    }
  }

  fn lit(&mut self, s: &[char], pos: usize) -> R {
    for (i, c) in s.iter().enumerate() {
      match self.input.get(pos + i) {
        Some(x) if x == c => {}
        Some(_) => return Err(i != 0),
        None => return Err(false),
      }
    }
    Ok((V::s(s), s.len()))
  }

  fn rep(&mut self, a: &T, sep: Option<&T>, r: Rng, pos: usize) -> R {
    let (min, max) = r.bounds();
    let mut items = vec![];
    let mut len = 0;
    loop {
      if max.is_some_and(|m| items.len() >= m) {
        break;
      }
      let mut step = 0;
      if let (Some(s), false) = (sep, items.is_empty()) {
        match self.eval(s, pos + len) {
          Ok((_, n)) => step += n,
          Err(_) => break,
        }
      }
      match self.eval(a, pos + len + step) {
        Ok((v, n)) => {
          items.push(v);
          step += n;
          len += step;
        }
        Err(_) => break,
      }
      // an unbounded repetition that makes no progress has nothing more to take
      // (after a first empty item a separator may still advance)
      if step == 0 && max.is_none() && items.len() >= min.max(1) && !(items.len() == 1 && sep.is_some()) {
        break;
      }
    }
    if items.len() < min {
      Err(false)
    } else {
      Ok((V::L(items), len))
    }
  }

  fn app(o: &V, a: V, b: V) -> V {
    match o {
      V::C(c) => V::Bin(*c as u8, Box::new(a), Box::new(b)),
      _ => V::Bin(b'?', Box::new(a), Box::new(b)),
    }
  }

  fn rest_left(&mut self, a: &T, o: &T, x: V, pos: usize) -> R {
    let mut acc = x;
    let mut len = 0;
    loop {
      match self.eval(o, pos + len) {
        Err(false) => return Ok((acc, len)),
        Err(true) => return Err(true),
        Ok((op, n1)) => match self.eval(a, pos + len + n1) {
          Err(c) => {
            return if c || n1 != 0 { Err(true) } else { Ok((acc, len)) };
          }
          Ok((y, n2)) => {
            acc = Self::app(&op, acc, y);
            len += n1 + n2;
          }
        },
      }
    }
  }

  fn chain_right(&mut self, a: &T, o: &T, pos: usize) -> R {
    let (x, n) = self.eval(a, pos)?;
    let (y, m) = self.rest_right(a, o, x, pos + n).map_err(|c| c || n != 0)?;
    Ok((y, n + m))
  }

  fn rest_right(&mut self, a: &T, o: &T, x: V, pos: usize) -> R {
    match self.eval(o, pos) {
      Err(false) => Ok((x, 0)),
      Err(true) => Err(true),
      Ok((op, n1)) => match self.chain_right(a, o, pos + n1) {
        Err(c) => {
          if c || n1 != 0 {
            Err(true)
          } else {
            Ok((x, 0))
          }
        }
        Ok((y, n2)) => Ok((Self::app(&op, x, y), n1 + n2)),
      },
    }
  }
}

/// What a real run showed, in the model's vocabulary.
pub fn observe(r: &ParseResult<char, V>) -> R {
  match r {
    ParseResult::Success { value, length } => Ok((value.clone(), *length)),
    ParseResult::Failure { committed_status, .. } => Err(committed_status.is_committed()),
  }
}

pub fn show_r(r: &R) -> String {
  match r {
    Ok((v, n)) => format!("success {:?} consuming {}", v, n),
    Err(true) => "committed failure".into(),
    Err(false) => "uncommitted failure".into(),
  }
}

/// Every term with exactly `size` nodes (ternary forms count as one node).
pub struct Gen {
  pub leaves: Vec<T>,
  pub unary: Vec<fn(Box<T>) -> T>,
  pub binary: Vec<fn(Box<T>, Box<T>) -> T>,
  pub ternary: Vec<fn(Box<T>, Box<T>, Box<T>) -> T>,
}

impl Gen {
  pub fn up_to(&self, size: usize) -> Vec<T> {
    let mut v = vec![];
    self.visit(size, &mut |t| v.push(t.clone()));
    v
  }

  /// Calls `f` on every term of 1..=size nodes; only the layers below the last are kept in memory.
  pub fn visit(&self, size: usize, f: &mut dyn FnMut(&T)) {
    let mut by: Vec<Vec<T>> = vec![vec![]];
    for s in 1..=size {
      let mut v = vec![];
      self.layer(&by, s, &mut |t| {
        f(&t);
        if s < size {
          v.push(t);
        }
      });
      by.push(v);
    }
  }

  fn layer(&self, by: &[Vec<T>], s: usize, f: &mut dyn FnMut(T)) {
    if s == 1 {
      self.leaves.iter().for_each(|l| f(l.clone()));
      return;
    }
    for a in &by[s - 1] {
      for u in &self.unary {
        f(u(bx(a.clone())));
      }
    }
    for i in 1..s - 1 {
      let j = s - 1 - i;
      for a in &by[i] {
        for b in &by[j] {
          for g in &self.binary {
            f(g(bx(a.clone()), bx(b.clone())));
          }
        }
      }
    }
    if s >= 4 {
      for i in 1..s - 2 {
        for j in 1..s - 1 - i {
          let k = s - 1 - i - j;
          for a in &by[i] {
            for b in &by[j] {
              for c in &by[k] {
                for g in &self.ternary {
                  f(g(bx(a.clone()), bx(b.clone()), bx(c.clone())));
                }
              }
            }
          }
        }
      }
    }
  }
}
