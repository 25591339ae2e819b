//! P07: histories of runs against one cached parser instance.

use crate::term::*;
use mc_core::{h64, words, Ctx};
use oni_comb_parser_rs::prelude::*;
use std::cell::RefCell;
use std::rc::Rc;
use T::*;

type Pt = (&'static [char], usize);

/// Breaks the reference cycle of a recursive grammar when the history is over.
struct Cycle(Option<Rc<RefCell<Option<Parser<'static, char, V>>>>>);
impl Drop for Cycle {
  fn drop(&mut self) {
    if let Some(c) = self.0.take() {
      let p = c.borrow_mut().take();
      drop(p);
    }
  }
}

/// A grammar that refers to itself through one shared, cached instance.
fn recursive(shape: u8) -> (Parser<'static, char, V>, Cycle) {
  let cell: Rc<RefCell<Option<Parser<'static, char, V>>>> = Rc::new(RefCell::new(None));
  let me = {
    let cell = cell.clone();
    move || -> Parser<'static, char, V> {
      let cell = cell.clone();
      Parser::new(move |s| {
        let p = cell.borrow().as_ref().unwrap().clone();
        p.run(s)
      })
    }
  };
  let a = || elm('a').map(V::C);
  let b = || elm('b').map(V::C);
  let p = match shape {
    // nested brackets: a e b | a
    0 => ((a() + me()) - b()).attempt().map(|(x, y)| V::pair(x, y)) | a(),
    // both alternatives re-parse the same position
    1 => (a() + me()).attempt().map(|(x, y)| V::pair(x, y)) | ((b() + me()).attempt().map(|(x, y)| V::pair(x, y)) | elm_any().map(V::C)),
    // recursion under a repetition
    _ => ((a() * me().of_many_n_m(0, 2)) - b().opt()).map(V::L) | b(),
  };
  let p = p.cache();
  *cell.borrow_mut() = Some(p.clone());
  (p, Cycle(Some(cell)))
}

fn recursive_model(shape: u8, m: &mut Model, pos: usize) -> R {
  let i = m.input;
  m.steps += 1;
  let at = |k: usize, c: char| i.get(k) == Some(&c);
  match shape {
    0 => {
      if at(pos, 'a') {
        if let Ok((v, n)) = recursive_model(0, m, pos + 1) {
          if at(pos + 1 + n, 'b') {
            return Ok((V::pair(V::C('a'), v), n + 2));
          }
        }
        return Ok((V::C('a'), 1));
      }
      Err(false)
    }
    1 => match i.get(pos) {
      None => Err(false),
      Some(c) => match (matches!(c, 'a' | 'b'), recursive_model(1, m, pos + 1)) {
        (true, Ok((v, n))) => Ok((V::pair(V::C(*c), v), n + 1)),
        _ => Ok((V::C(*c), 1)),
      },
    },
    _ => {
      if at(pos, 'a') {
        let mut n = 1;
        let mut items = vec![];
        while items.len() < 2 {
          match recursive_model(2, m, pos + n) {
            Ok((v, k)) => {
              items.push(v);
              n += k;
            }
            Err(_) => break,
          }
        }
        if at(pos + n, 'b') {
          n += 1;
        }
        Ok((V::L(items), n))
      } else if at(pos, 'b') {
        Ok((V::C('b'), 1))
      } else {
        Err(false)
      }
    }
  }
}

enum G {
  Term(T),
  Rec(u8),
}
impl G {
  fn show(&self) -> String {
    match self {
      G::Term(t) => t.show(),
      G::Rec(k) => format!("recursive cached grammar {}", k),
    }
  }
  fn build(&self) -> (Parser<'static, char, V>, Cycle) {
    match self {
      G::Term(t) => (build(t), Cycle(None)),
      G::Rec(k) => recursive(*k),
    }
  }
  fn model(&self, p: Pt) -> (R, u64) {
    let mut m = Model::new(p.0);
    let r = match self {
      G::Term(t) => m.eval(t, p.1),
      G::Rec(k) => recursive_model(*k, &mut m, p.1),
    };
    (r, m.steps)
  }
}

/// The same term with every cache taken out.
fn without_caches(t: &T) -> T {
  let s = |x: &T| bx(without_caches(x));
  match t {
    Cache(a) => without_caches(a),
    Opt(a) => Opt(s(a)),
    Collect(a) => Collect(s(a)),
    Attempt(a) => Attempt(s(a)),
    Rep(a, r) => Rep(s(a), *r),
    Or(a, b) => Or(s(a), s(b)),
    Then(a, b) => Then(s(a), s(b)),
    Bind(a, b) => Bind(s(a), s(b)),
    leaf => leaf.clone(),
  }
}

pub fn p07(ctx: &mut Ctx) {
  crate::long::p07(ctx);
  crate::long::p07_slices(ctx);
  crate::long::p07_far(ctx);
  let bufs: Vec<&'static [char]> = ["aabb", "abab", "baab", "a"].iter().map(|s| &*Box::leak(s.chars().collect::<Vec<_>>().into_boxed_slice())).collect();
  let mut pts: Vec<Pt> = vec![];
  for b in &bufs {
    for o in 0..=b.len() {
      pts.push((b, o));
    }
  }
  // the same memory seen through other slices: suffixes and prefixes
  let whole = bufs[0];
  pts.push((&whole[1..], 0));
  pts.push((&whole[1..], 1));
  pts.push((&whole[2..], 0));
  pts.push((&whole[..2], 0));
  pts.push((&whole[..2], 1));
  pts.push((&whole[..3], 1));
  pts.push((&whole[1..3], 1));

  let c = |t: T| Cache(bx(t));
  let gs: Vec<G> = vec![
    G::Term(c(Elm('a'))),
    G::Term(c(Next(bx(Any)))),
    G::Term(c(Last(bx(Rep(bx(Elm('a')), Rng::Many0))))),
    G::Term(c(Collect(bx(Rep(bx(Any), Rng::Many0))))),
    G::Term(c(End)),
    G::Term(c(Tag("ab"))),
    G::Term(Or(bx(c(Tag("ab"))), bx(c(Any)))),
    G::Term(Or(bx(Then(bx(c(Elm('a'))), bx(c(Elm('a'))))), bx(c(Elm('a'))))),
    G::Term(Rep(bx(c(Or(bx(Elm('a')), bx(Elm('b'))))), Rng::Many0)),
    G::Term(RepSep(bx(c(Elm('a'))), bx(c(Elm('b'))), Rng::Many0)),
    G::Term(c(Rep(bx(c(Next(bx(Any)))), Rng::NM(1, 2)))),
    G::Term(c(Bind(bx(c(Elm('a'))), bx(c(Elm('b')))))),
    G::Term(Then(bx(Opt(bx(c(Tag("ba"))))), bx(c(Collect(bx(Opt(bx(Any)))))))),
    G::Term(Then(bx(Peek(bx(c(Any)))), bx(c(Any)))),
    G::Term(c(Not(bx(c(Elm('b')))))),
    G::Rec(0),
    G::Rec(1),
    G::Rec(2),
  ];
  let depth = ctx.pick(4usize, 5);
  let n = pts.len();
  for g in &gs {
    let want: Vec<(R, u64)> = pts.iter().map(|p| g.model(*p)).collect();
    for first in 0..n {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      for second in 0..n {
        let total = n.pow(depth as u32 - 2);
        ctx.note("runs_in_histories", (total * depth * 2) as u64);
        let gname = h64(&g.show());
        for k in 0..total {
          ctx.state(h64(&(gname, first, second, k)));
        }
        ctx.steps((total * depth) as u64);
        ctx.case(
          || format!("cached {}: histories of {} runs starting {:?}/{}, {:?}/{}", g.show(), depth, pts[first].0, pts[first].1, pts[second].0, pts[second].1),
          || {
            let mut fp = 0u64;
            for k in 0..total {
              let mut h = vec![first, second];
              let mut r = k;
              for _ in 2..depth {
                h.push(r % n);
                r /= n;
              }
              // one state slot, so that every run sees its state at the same address
              let (p, _cycle) = g.build();
              let mut slot = ParseState::new(pts[h[0]].0, pts[h[0]].1);
              for (i, x) in h.iter().enumerate() {
                slot = ParseState::new(pts[*x].0, pts[*x].1);
                let got = observe(&p.run(&slot));
                if got != want[*x].0 {
                  return Err(format!("run {} of history {:?} (same state address): expected {}, got {}", i + 1, h, show_r(&want[*x].0), show_r(&got)));
                }
                fp = h64(&(fp, &got));
              }
              std::hint::black_box(&slot);
              // a fresh state per run, alternating an instance and its clone
              let (p, _cycle) = g.build();
              let q = p.clone();
              let states: Vec<ParseState<char>> = h.iter().map(|x| ParseState::new(pts[*x].0, pts[*x].1)).collect();
              for (i, x) in h.iter().enumerate() {
                let got = observe(&if i % 2 == 0 { p.run(&states[i]) } else { q.run(&states[i]) });
                if got != want[*x].0 {
                  return Err(format!("run {} of history {:?} (fresh states, clones): expected {}, got {}", i + 1, h, show_r(&want[*x].0), show_r(&got)));
                }
              }
            }
            Ok(fp)
          },
        );
      }
    }
  }
  // every term with caches inserted, one instance over every point, forwards and backwards
  let gen = Gen {
    leaves: vec![Elm('a'), Any, Tag("ab"), Next(bx(Any)), FailC],
    unary: vec![Cache, Cache, Opt, Collect, |t| Rep(t, Rng::NM(0, 2)), Attempt],
    binary: vec![Or, Then, Bind],
    ternary: vec![],
  };
  let inputs: &'static [Vec<char>] = Box::leak(words(&['a', 'b'], 3).into_boxed_slice());
  let pts: Vec<Pt> = inputs.iter().flat_map(|w| (0..=w.len()).map(move |o| (&w[..], o))).collect();
  gen.visit(ctx.pick(5, 6), &mut |t| {
    if ctx.full() || !ctx.mine() {
      return;
    }
    // put the whole term behind a cache as well
    let t = &Cache(bx(t.clone()));
    let want: Vec<R> = pts
      .iter()
      .map(|p| {
        let mut m = Model::new(p.0);
        m.eval(t, p.1)
      })
      .collect();
    let bare = without_caches(t);
    ctx.steps(pts.len() as u64 * 2);
    ctx.state(h64(t));
    ctx.case(
      || format!("{}: one instance over all words", t.show()),
      || {
        let p = build(t);
        let uncached = build(&bare);
        let mut fp = 0;
        let mut slot = ParseState::new(pts[0].0, 0);
        for i in (0..pts.len()).chain((0..pts.len()).rev()) {
          slot = ParseState::new(pts[i].0, pts[i].1);
          let ran = p.run(&slot);
          let got = observe(&ran);
          if got.is_err() && ran.failure() != uncached.run(&slot).failure() {
            return Err(format!("on {:?} offset {}: the error is not the one of the uncached parser", pts[i].0, pts[i].1));
          }
          if got != want[i] {
            return Err(format!("on {:?} offset {}: expected {}, got {}", pts[i].0, pts[i].1, show_r(&want[i]), show_r(&got)));
          }
          fp = h64(&(fp, &got));
        }
        std::hint::black_box(&slot);
        Ok(fp)
      },
    );
  });
}
