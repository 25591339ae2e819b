//! The same properties at sizes the exhaustive word spaces do not reach: every length up to a bound and around the
//! powers of two, with every member of a family that is regular in its length.

use crate::term::*;
use crate::terms::{compare_term, inspect};
use mc_core::{h64, Ctx};
use oni_comb_parser_rs::prelude::*;
use T::*;

pub fn lengths(ctx: &Ctx, dense: usize) -> Vec<usize> {
  let mut v: Vec<usize> = (0..=dense).collect();
  for p in [31, 32, 63, 64, 100, 127, 128, 200, 255, 256] {
    v.extend([p, p + 1]);
  }
  if ctx.thorough() {
    v.extend(0..=270);
    v.extend([511, 512, 513, 1000, 1023, 1024, 1025]);
  }
  v.sort();
  v.dedup();
  v
}

/// Sizes far beyond the others, for families whose cost grows with the size only.
pub const HUGE: [usize; 14] = [511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 65535, 65536, 65537];

fn huge_inputs(n: usize) -> Vec<Vec<char>> {
  vec![cat(&[("a", n), ("b", 1), ("a", 3)]), cat(&[("a", n)]), cat(&[("a", n - 1)]), cat(&[("a", n - 1), ("b", 2)]), cat(&[("a", n + 1)])]
}

fn huge(ctx: &mut Ctx, terms: &dyn Fn(usize) -> Vec<T>, inputs: &dyn Fn(usize) -> Vec<Vec<char>>) {
  for n in HUGE {
    for t in terms(n) {
      if ctx.mine() && !ctx.full() {
        compare_term(ctx, &t, &inputs(n), 1);
      }
    }
  }
}

fn rep(c: &str, n: usize) -> Vec<char> {
  c.repeat(n).chars().collect()
}

fn cat(parts: &[(&str, usize)]) -> Vec<char> {
  parts.iter().flat_map(|(c, n)| rep(c, *n)).collect()
}

fn leak(s: String) -> &'static str {
  Box::leak(s.into_boxed_str())
}

/// Every combinator around parsers that consume n elements and then succeed or fail in some way, where `pad` elements are left.
fn scaled(ctx: &mut Ctx, wrap: &[fn(T) -> T], lens: &[usize]) {
  for n in lens {
    let n = *n;
    let firsts = [Take(n), Rep(bx(Elm('a')), Rng::Many0), Tag(leak("a".repeat(n))), Skip(n)];
    let inputs: Vec<Vec<char>> = [0, 1, 6, n]
      .iter()
      .flat_map(|k| ["bb", "bc", "b", "c", "", "cbb"].map(|t| cat(&[("a", n), (t, 1), ("a", *k)])))
      .chain([cat(&[("a", n.saturating_sub(1))]), cat(&[("a", n.saturating_sub(1)), ("b", 2)])])
      .collect();
    for first in &firsts {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      for second in [Tag("bb"), Elm('b'), End, FailC, FailU, Then(bx(Elm('b')), bx(Elm('b'))), Opt(bx(Tag("bb"))), Unit] {
        let (f, g) = (|| bx(first.clone()), || bx(second.clone()));
        let both = Then(f(), g());
        let xs = vec![
          both.clone(),
          Bind(f(), g()),
          SkipL(f(), g()),
          SkipR(f(), g()),
          SkipR(bx(Elm('a')), bx(both.clone())),
          Surround(f(), g(), bx(Opt(bx(Elm('a'))))),
          Surround(bx(Elm('a')), bx(Opt(bx(Elm('a')))), bx(both.clone())),
          BindIf(f(), g(), bx(Unit)),
          Attempt(bx(both.clone())),
          Opt(bx(both.clone())),
          Exists(bx(both.clone())),
          Not(bx(both.clone())),
          Peek(bx(both.clone())),
          Collect(bx(both.clone())),
          Discard(bx(both.clone())),
          Last(bx(both.clone())),
          Next(bx(both.clone())),
          MapTag(bx(both.clone())),
          FilterTrueish(bx(both.clone())),
          FilterNotTrueish(bx(both.clone())),
          Conv(bx(both.clone())),
          Name(bx(both.clone())),
          Lazy(bx(both.clone())),
          Cache(bx(both.clone())),
          Rep(bx(both.clone()), Rng::Many0),
          Rep(bx(both.clone()), Rng::Many1),
          Rep(bx(both.clone()), Rng::Count(1)),
          RepSep(f(), g(), Rng::ToInc(2)),
          Or(bx(both.clone()), bx(Elm('a'))),
          Or(bx(Attempt(bx(both.clone()))), bx(SkipL(f(), bx(Any)))),
        ];
        for x in xs {
          // a repetition of nothing at all has no finite meaning
          if !crate::terms::endless(&x) {
            for w in wrap {
              compare_term(ctx, &w(x.clone()), &inputs, 1);
            }
          }
        }
      }
    }
  }
}

pub fn p01(ctx: &mut Ctx) {
  let many = || bx(Rep(bx(Elm('a')), Rng::Many0));
  huge(
    ctx,
    &|n| {
      let long = || Then(bx(Take(n)), bx(Elm('b')));
      let lit = || Tag(leak(format!("{}b", "a".repeat(n))));
      vec![
        Or(bx(long()), bx(Any)),
        Or(bx(Attempt(bx(long()))), bx(Take(n))),
        Or(bx(lit()), bx(Any)),
        Or(bx(Attempt(bx(lit()))), many()),
        Or(bx(Opt(bx(long()))), bx(Any)),
        Or(bx(Not(bx(long()))), bx(Exists(bx(Any)))),
        Or(bx(Peek(bx(lit()))), bx(Any)),
        Or(bx(Bind(many(), bx(Elm('b')))), bx(Any)),
      ]
    },
    &huge_inputs,
  );
  let ls = lengths(ctx, 16);
  scaled(ctx, &[|x| x, |x| Or(bx(x), bx(Elm('a'))), |x| Or(bx(Opt(bx(Then(bx(Elm('a')), bx(x))))), bx(Any))], &ls);
  for n in lengths(ctx, 12) {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    let n = n.min(260);
    // alternatives that share ever longer prefixes
    let tags: Vec<T> = (0..n + 1).map(|i| Tag(leak(format!("{}b", "a".repeat(i))))).collect();
    let inputs: Vec<Vec<char>> = [0, 1, n / 2, n.saturating_sub(1), n, n + 1].iter().flat_map(|k| [cat(&[("a", *k), ("b", 1)]), cat(&[("a", *k), ("c", 1)]), cat(&[("a", *k)])]).collect();
    let wrap = |t: &T, safe: bool| if safe { Attempt(bx(t.clone())) } else { t.clone() };
    for safe in [false, true] {
      let left = tags.iter().skip(1).fold(wrap(&tags[0], safe), |l, t| Or(bx(l), bx(wrap(t, safe))));
      compare_term(ctx, &left, &inputs, 1);
      let right = tags.iter().rev().skip(1).fold(wrap(&tags[n], safe), |r, t| Or(bx(wrap(t, safe)), bx(r)));
      compare_term(ctx, &right, &inputs, 1);
      compare_term(ctx, &Or(bx(Opt(bx(wrap(&tags[n], safe)))), bx(Any)), &inputs, 1);
      compare_term(ctx, &Or(bx(wrap(&tags[n], safe)), bx(Peek(bx(Rep(bx(Any), Rng::Many0))))), &inputs, 1);
      compare_term(ctx, &Or(bx(Not(bx(wrap(&tags[n], safe)))), bx(Exists(bx(Any)))), &inputs, 1);
    }
  }
}

pub fn p02(ctx: &mut Ctx) {
  let many = || bx(Rep(bx(Elm('a')), Rng::Many0));
  huge(
    ctx,
    &|n| {
      vec![
        Then(many(), bx(Next(bx(Elm('b'))))),
        Then(bx(Skip(n)), bx(Last(bx(Any)))),
        Then(bx(Collect(many())), bx(Collect(bx(Rep(bx(Any), Rng::Many0))))),
        SkipL(bx(Take(n)), bx(Next(bx(Any)))),
        Surround(bx(Take(n / 2)), bx(Next(many())), bx(Elm('b'))),
        SkipR(bx(Last(many())), bx(Elm('b'))),
        Bind(bx(Next(many())), bx(Collect(bx(Take(1))))),
        Last(bx(Then(bx(Opt(bx(Skip(n)))), bx(Opt(bx(Elm('b'))))))),
      ]
    },
    &huge_inputs,
  );
  let ls = lengths(ctx, 16);
  scaled(ctx, &[|x| Then(bx(Collect(bx(x.clone()))), bx(Next(bx(Any)))), |x| Then(bx(Opt(bx(Elm('a')))), bx(Next(bx(Attempt(bx(x))))))], &ls);
  let c = |t: T| Collect(bx(t));
  for n in lengths(ctx, 12) {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    let run = || Rep(bx(Elm('a')), Rng::Many0);
    let inputs = vec![cat(&[("a", n), ("b", 1), ("a", n)]), cat(&[("a", n)]), cat(&[("b", 1), ("a", n), ("b", 2)])];
    for t in [
      Then(bx(run()), bx(Next(bx(Elm('b'))))),
      Then(bx(Skip(n)), bx(Last(bx(Any)))),
      Then(bx(c(run())), bx(c(Rep(bx(Any), Rng::Many0)))),
      Surround(bx(run()), bx(Next(bx(Elm('b')))), bx(run())),
      SkipR(bx(Next(bx(run()))), bx(Elm('b'))),
      SkipL(bx(Take(n)), bx(Next(bx(Any)))),
      Last(bx(Then(bx(run()), bx(Opt(bx(Elm('b'))))))),
      Bind(bx(Next(bx(run()))), bx(c(Take(1)))),
      Discard(bx(run())),
    ] {
      compare_term(ctx, &t, &inputs, 2000);
    }
    // one component per element
    for op in [Then as fn(Box<T>, Box<T>) -> T, SkipL, SkipR, Bind] {
      let k = n.clamp(1, 120);
      let left = (1..k).fold(Elm('a'), |l, _| op(bx(l), bx(Elm('a'))));
      let right = (1..k).fold(Elm('a'), |r, _| op(bx(Elm('a')), bx(r)));
      for t in [left, right] {
        compare_term(ctx, &c(t.clone()), &[rep("a", k), rep("a", k + 1), rep("a", k - 1), cat(&[("a", k - 1), ("b", 1)])], 2);
        compare_term(ctx, &Next(bx(t)), &[rep("a", k), rep("a", k + 3)], 3);
      }
    }
  }
}

pub fn p05(ctx: &mut Ctx) {
  huge(
    ctx,
    &|n| {
      let mut out = vec![];
      for r in [Rng::Many0, Rng::Many1, Rng::NM(n, n + 1), Rng::Count(n), Rng::Half(n - 1, n + 1), Rng::To(n), Rng::ToInc(n), Rng::From(n), Rng::Inc(1, n)] {
        out.push(Next(bx(Rep(bx(Elm('a')), r))));
        out.push(Then(bx(RepSep(bx(Or(bx(Elm('a')), bx(Elm('c')))), bx(Opt(bx(Elm('b')))), r)), bx(Opt(bx(Any)))));
        out.push(Next(bx(RepSep(bx(Elm('a')), bx(Elm('b')), r))));
      }
      out
    },
    &|n| [huge_inputs(n), vec![cat(&[("ab", n)]), cat(&[("ab", n - 1), ("a", 1)]), cat(&[("ab", n - 1), ("ac", 1)])]].concat(),
  );
  // items and separators of n elements, also broken off in the middle
  for n in lengths(ctx, 14) {
    for (a, b) in [(n, 1), (1, n), (n, n), (n / 2, n), (0, n), (n, 0)] {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let (item, sep) = ("a".repeat(a), "b".repeat(b));
      let spell = |t: &str| -> Vec<char> {
        t.chars()
          .flat_map(|c| match c {
            'i' => item.clone(),
            's' => sep.clone(),
            'j' => "a".repeat(a / 2) + "c",
            't' => "b".repeat(b / 2) + "c",
            c => c.to_string(),
          }
          .chars()
          .collect::<Vec<_>>())
          .collect()
      };
      let words = ["", "i", "is", "isi", "isis", "isisi", "isisisi", "ij", "isj", "it", "isit", "isisj", "ii", "iii", "iiii", "j", "s", "si", "isic", "isisc", "iij", "issi"];
      let mut inputs: Vec<Vec<char>> = words.iter().map(|t| spell(t)).collect();
      inputs.sort();
      inputs.dedup();
      for (it, se) in [(Tag(leak(item.clone())), Tag(leak(sep.clone()))), (Attempt(bx(Tag(leak(item.clone())))), Attempt(bx(Tag(leak(sep.clone()))))), (Rep(bx(Elm('a')), Rng::Count(a)), Rep(bx(Elm('b')), Rng::Count(b)))] {
        for r in [Rng::Many0, Rng::Many1, Rng::NM(1, 2), Rng::NM(2, 3), Rng::Count(2), Rng::Count(3), Rng::Half(0, 3), Rng::To(2), Rng::ToInc(2), Rng::From(2), Rng::Exact(2), Rng::Inc(1, 3)] {
          for t in [Rep(bx(it.clone()), r), RepSep(bx(it.clone()), bx(se.clone()), r)] {
            if crate::terms::endless(&t) {
              continue;
            }
            compare_term(ctx, &Next(bx(t.clone())), &inputs, 1);
            compare_term(ctx, &Or(bx(t), bx(Any)), &inputs, 0);
          }
        }
      }
    }
  }
  let ls = lengths(ctx, 20);
  let items = [Elm('a'), Or(bx(Elm('a')), bx(Elm('c'))), Next(bx(Any)), Tag("ab"), Opt(bx(Elm('a'))), Rep(bx(Elm('a')), Rng::Count(2))];
  for n in &ls {
    let n = *n;
    if n == 0 {
      continue;
    }
    for (i, it) in items.iter().enumerate() {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      // around the bound, a little and a lot more
      let ks = [n.saturating_sub(2), n - 1, n, n + 1, n + 2, 2 * n, 2 * n + 1];
      let mut inputs: Vec<Vec<char>> = ks.iter().flat_map(|k| [rep("a", *k), cat(&[("a", *k), ("c", 1)]), rep("ab", *k), cat(&[("ab", *k), ("a", 1)]), cat(&[("ab", *k), ("c", 2)])]).collect();
      inputs.sort();
      inputs.dedup();
      for r in [Rng::Many0, Rng::Many1, Rng::NM(n / 2, n), Rng::NM(n, n + 1), Rng::Count(n), Rng::Half(0, n), Rng::Half(n - 1, n + 1), Rng::To(n), Rng::ToInc(n), Rng::From(n), Rng::Exact(n), Rng::Inc(1, n)] {
        compare_term(ctx, &Rep(bx(it.clone()), r), &inputs, 0);
        compare_term(ctx, &Then(bx(Opt(bx(Elm('a')))), bx(Next(bx(Rep(bx(it.clone()), r))))), &inputs, 0);
        if i < 3 {
          for s in [Elm('b'), Opt(bx(Elm('b'))), Unit] {
            compare_term(ctx, &Then(bx(RepSep(bx(it.clone()), bx(s), r)), bx(Rep(bx(Any), Rng::Many0))), &inputs, 0);
          }
        }
      }
    }
  }
}

pub fn p06(ctx: &mut Ctx) {
  let forms: Vec<fn(Box<T>, Box<T>) -> T> = vec![ChainL1, ChainR1, ScanR1, ChainL0, ChainR0, RestL1, RestR1];
  for n in &HUGE[..7] {
    let n = *n;
    for f in &forms {
      if ctx.mine() && !ctx.full() {
        let inputs: Vec<Vec<char>> = ["", "+", "z", "-z", "-y"].iter().map(|t| cat(&[("x", 1), ("+y", n / 2), ("-x", n - n / 2), (t, 1)])).collect();
        compare_term(ctx, &Next(bx(f(bx(Or(bx(Elm('x')), bx(Elm('y')))), bx(Or(bx(Elm('+')), bx(Elm('-'))))))), &inputs, 0);
      }
    }
  }
  // operators and operands of n elements
  for n in lengths(ctx, 12) {
    for (i, (a, b)) in [(n, 0), (0, n), (n, n), (n / 2, n)].into_iter().enumerate() {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let operand = SkipR(bx(Or(bx(Elm('x')), bx(Elm('y')))), bx(Tag(leak("o".repeat(a)))));
      let operator = SkipR(bx(Or(bx(Elm('+')), bx(Elm('-')))), bx(Tag(leak("p".repeat(b)))));
      let (o, p) = ("o".repeat(a), "p".repeat(b));
      let spell = |t: &str| -> Vec<char> {
        t.chars()
          .flat_map(|c| match c {
            'x' | 'y' => format!("{}{}", c, o),
            '+' | '-' => format!("{}{}", c, p),
            // a half of one
            '1' => format!("x{}", "o".repeat(a / 2)),
            '2' => format!("+{}", "p".repeat(b / 2)),
            c => c.to_string(),
          }
          .chars()
          .collect::<Vec<_>>())
          .collect()
      };
      let words = ["", "x", "x+", "x+y", "x+y-", "x+y-x", "x+y-xz", "x-y+x-y", "x+1", "1", "x2", "x+y2", "x-y-1", "+x", "+x-y", "-x+", "2", "xx", "z", "x+z", "x++x"];
      let inputs: Vec<Vec<char>> = words.iter().map(|t| spell(t)).collect();
      for f in &forms {
        let t = f(bx(operand.clone()), bx(operator.clone()));
        compare_term(ctx, &t, &inputs, 1);
        compare_term(ctx, &Or(bx(t.clone()), bx(Any)), &inputs, 0);
        compare_term(ctx, &Then(bx(Attempt(bx(t))), bx(Rep(bx(Any), Rng::Many0))), &inputs, i);
      }
    }
  }
  let operand = Or(bx(Elm('x')), bx(Elm('y')));
  let operator = Or(bx(Elm('+')), bx(Elm('-')));
  for n in lengths(ctx, 14) {
    // chains of n operators, with a minus at one place or everywhere, closed and dangling
    let n = n.min(300);
    let mut inputs: Vec<Vec<char>> = vec![];
    let mut spots: Vec<usize> = vec![0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1];
    if n > 40 {
      spots = vec![n / 2, n.saturating_sub(1), n + 1];
    }
    spots.dedup();
    for k in spots {
      let mut w = String::from("x");
      for i in 0..n {
        w.push(if i == k || k == n + 1 { '-' } else { '+' });
        w.push(if i % 3 == 2 { 'y' } else { 'x' });
      }
      for tail in ["", "+", "z", "+z", "xx"] {
        inputs.push(format!("{}{}", w, tail).chars().collect());
        inputs.push(format!("{}{}", &w[1..], tail).chars().collect());
      }
    }
    inputs.sort();
    inputs.dedup();
    for f in &forms {
      if ctx.mine() && !ctx.full() {
        let t = f(bx(operand.clone()), bx(operator.clone()));
        compare_term(ctx, &t, &inputs, 2);
        compare_term(ctx, &Then(bx(t.clone()), bx(Rep(bx(Any), Rng::Many0))), &inputs, 0);
        compare_term(ctx, &Collect(bx(Opt(bx(t)))), &inputs, 0);
      }
    }
  }
}

/// A cached instance at positions far apart, each asked twice.
pub fn p07_far(ctx: &mut Ctx) {
  let c = |t: T| Cache(bx(t));
  for t in [c(Any), c(Next(bx(Any))), c(Tag("ab")), c(Collect(bx(Take(2)))), Or(bx(c(Tag("ab"))), bx(c(Any))), c(End)] {
    for top in [1100, 4200, 66000, 132000] {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let w: &'static [char] = Box::leak((0..top).map(|k| if (k / 256) % 3 == 0 || k % 5 == 0 || k >= 65536 && k % 7 < 3 { 'a' } else { 'b' }).collect());
      let mut at = vec![];
      for base in [0usize, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 32767, 32768, 65535, 65536, 65791, 65792, 131071, 131072] {
        at.extend((0..7).map(|d| base + d).filter(|o| *o <= top));
      }
      at.push(top);
      at.push(top - 1);
      ctx.state(h64(&("far", &t, top)));
      ctx.case(
        || format!("{}: one instance at positions far apart of {} elements", t.show(), top),
        || {
          let p = build(&t);
          let mut fp = 0;
          for turn in 0..2 {
            for o in &at {
              let mut m = Model::new(w);
              let (want, got) = (m.eval(&t, *o), observe(&p.run(&ParseState::new(w, *o))));
              if got != want {
                return Err(format!("offset {} in turn {}: expected {}, got {}", o, turn, show_r(&want), show_r(&got)));
              }
              fp = h64(&(fp, got));
            }
          }
          Ok(fp)
        },
      );
    }
  }
}

/// One cached instance over every position of long inputs, in several orders, against the reference.
pub fn p07(ctx: &mut Ctx) {
  let c = |t: T| Cache(bx(t));
  let terms = [
    c(Any),
    c(Elm('a')),
    c(Next(bx(Any))),
    c(Tag("ab")),
    Or(bx(c(Tag("ab"))), bx(c(Any))),
    c(Rep(bx(c(Elm('a'))), Rng::NM(0, 3))),
    Rep(bx(c(Or(bx(Elm('a')), bx(Elm('b'))))), Rng::NM(1, 2)),
    c(Collect(bx(Take(2)))),
    c(End),
  ];
  for n in lengths(ctx, 4) {
    for (i, t) in terms.iter().enumerate() {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let w: Vec<char> = (0..n).map(|k| if (k * k + k / 3 + i) % 5 < 3 { 'a' } else { 'b' }).collect();
      let v: Vec<char> = (0..n + 1).map(|k| if (k * 7 + k / 2) % 4 < 2 { 'b' } else { 'a' }).collect();
      let mut m = Model::new(&w);
      let want: Vec<R> = (0..=n).map(|o| m.eval(t, o)).collect();
      let mut m2 = Model::new(&v);
      let want2: Vec<R> = (0..=n + 1).map(|o| m2.eval(t, o)).collect();
      ctx.steps(m.steps + m2.steps);
      ctx.state(h64(&("long cache", t, n)));
      ctx.case(
        || format!("{}: one instance over {} positions", t.show(), n),
        || {
          let p = build(t);
          let (w, v): (&'static [char], &'static [char]) = unsafe { (std::slice::from_raw_parts(w.as_ptr(), w.len()), std::slice::from_raw_parts(v.as_ptr(), v.len())) };
          let mut fp = 0;
          for turn in 0..4 {
            for k in 0..=n {
              let o = match turn {
                0 | 3 => k,
                1 => n - k,
                _ => (k * 37) % (n + 1),
              };
              let got = observe(&p.run(&ParseState::new(w, o)));
              if got != want[o] {
                return Err(format!("offset {} in turn {}: expected {}, got {}", o, turn, show_r(&want[o]), show_r(&got)));
              }
              let got = observe(&p.run(&ParseState::new(v, o)));
              if got != want2[o] {
                return Err(format!("offset {} of the other input in turn {}: expected {}, got {}", o, turn, show_r(&want2[o]), show_r(&got)));
              }
              fp = h64(&(fp, got));
            }
          }
          Ok(fp)
        },
      );
    }
  }
}

/// One cached instance over every prefix and suffix of the same memory.
pub fn p07_slices(ctx: &mut Ctx) {
  let c = |t: T| Cache(bx(t));
  let all = || Collect(bx(Rep(bx(Any), Rng::Many0)));
  for t in [c(End), c(all()), c(Next(bx(all()))), Or(bx(c(Tag("ab"))), bx(c(all()))), c(Rep(bx(c(Elm('a'))), Rng::Many1)), Then(bx(Opt(bx(c(Any)))), bx(c(Opt(bx(c(End))))))] {
    for top in [ctx.pick(300, 600), 129, 70] {
      for suffixes in [false, true] {
        if !ctx.mine() || ctx.full() {
          continue;
        }
        let w: &'static [char] = Box::leak((0..top).map(|k| if k % 11 < 8 { 'a' } else { 'b' }).collect());
        ctx.state(h64(&("slices", &t, top, suffixes)));
        ctx.case(
          || format!("{}: one instance over every {} of {} elements", t.show(), if suffixes { "suffix" } else { "prefix" }, top),
          || {
            let p = build(&t);
            let mut fp = 0;
            for turn in 0..2 {
              for k in 0..=top {
                let s = if suffixes { &w[k..] } else { &w[..k] };
                let mut os = vec![0, 1, 2, s.len() / 2, s.len().saturating_sub(1), s.len()];
                os.dedup();
                for o in os {
                  if o > s.len() {
                    continue;
                  }
                  let mut m = Model::new(s);
                  let want = m.eval(&t, o);
                  let got = observe(&p.run(&ParseState::new(s, o)));
                  if got != want {
                    return Err(format!("{} elements from offset {} in turn {}: expected {}, got {}", s.len(), o, turn, show_r(&want), show_r(&got)));
                  }
                  fp = h64(&(fp, got));
                }
              }
            }
            Ok(fp)
          },
        );
      }
    }
  }
}

pub fn p08(ctx: &mut Ctx) {
  for n in lengths(ctx, 4) {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    let w: Vec<char> = (0..n).map(|k| if k % 7 < 4 { 'a' } else { 'b' }).collect();
    for t in [Rep(bx(Elm('a')), Rng::Many0), Then(bx(Any), bx(Tag("ab"))), Or(bx(Tag("aab")), bx(Take(3))), Collect(bx(Rep(bx(Any), Rng::Many1))), RepSep(bx(Elm('a')), bx(Opt(bx(Elm('b')))), Rng::NM(1, 40)), End, Not(bx(Elm('b')))] {
      ctx.steps(n as u64);
      ctx.state(h64(&("long", &t, n)));
      ctx.case(
        || format!("{}: every suffix of {} elements", t.show(), n),
        || {
          let p = build(&t);
          let mut fp = 0;
          for k in 0..=n {
            let x = observe(&p.run(&ParseState::new(unsafe { std::slice::from_raw_parts(w.as_ptr(), n) }, k)));
            let y = observe(&build(&t).parse(&w[k..]));
            if x != y {
              return Err(format!("offset {} gives {}, the suffix gives {}", k, show_r(&x), show_r(&y)));
            }
            fp = h64(&(fp, x));
          }
          Ok(fp)
        },
      );
    }
  }
}

pub fn p09(ctx: &mut Ctx) {
  for n in lengths(ctx, 12).into_iter().chain(HUGE) {
    for unit in ["a", "é", "aé", "😀"] {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let len = unit.chars().count() * n;
      for tail in ["", "c", "ac", "ééx"] {
        let w = cat(&[(unit, n), (tail, 1)]);
        let all = || Rep(bx(NoneOf("cx")), Rng::Many0);
        for t in [
          Then(bx(all()), bx(Tag("ab"))),
          Then(bx(Take(len)), bx(Elm('b'))),
          Then(bx(Take(len)), bx(Conv(bx(Tag("ac"))))),
          Rep(bx(NoneOf("c")), Rng::Count(len + 2)),
          SkipR(bx(all()), bx(End)),
          Name(bx(Then(bx(all()), bx(Not(bx(Any)))))),
          Then(bx(Skip(len)), bx(FilterTrueish(bx(Collect(bx(Take(2))))))),
          Take(w.len() + 1),
        ] {
          ctx.state(h64(&("long error", &t, &w)));
          ctx.steps(3);
          ctx.case(
            || format!("error of {} on {} times {:?} and {:?}", t.show(), n, unit, tail),
            || {
              let p = build(&t);
              let mut fp = 0;
              for off in [0, 1, len / 2, len] {
                if off > w.len() {
                  continue;
                }
                let mut m = Model::new(&w);
                match (m.eval(&t, off), p.run(&ParseState::new(unsafe { std::slice::from_raw_parts(w.as_ptr(), w.len()) }, off)).to_result()) {
                  (Ok(_), Ok(_)) => {}
                  (Err(_), Err(e)) => fp = h64(&(fp, inspect(&e, &w, off, 0).map_err(|x| format!("offset {}: {}", off, x))?)),
                  (want, got) => return Err(format!("offset {}: expected {}, got {:?}", off, show_r(&want), got)),
                }
              }
              Ok(fp)
            },
          );
        }
      }
    }
  }
}

/// Errors whose message is of every length and made of characters of one to four bytes.
pub fn p09_messages(ctx: &mut Ctx) {
  for n in lengths(ctx, 90) {
    for unit in ["a", "é", "あ", "😀"] {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      for shift in 0..4usize {
        let text = leak("a".repeat(shift) + &unit.repeat(n));
        let w: &'static [char] = Box::leak((text.to_string() + "?").chars().collect::<Vec<_>>().into_boxed_slice());
        let bytes: &'static [u8] = Box::leak((text.to_string() + "?").into_bytes().into_boxed_slice());
        let lit: &'static str = leak(text.to_string() + "!");
        ctx.state(h64(&("message", n, unit, shift)));
        ctx.steps(10);
        ctx.case(
          || format!("errors that mention {} times {:?} behind {} letters", n, unit, shift),
          || {
            let ps: Vec<(&str, Parser<'static, char, ()>)> = vec![
              ("tag", tag(lit).map(|_| ())),
              ("tag_no_case", tag_no_case(lit).map(|_| ())),
              ("seq", seq(Box::leak(lit.chars().collect::<Vec<_>>().into_boxed_slice()) as &'static [char]).map(|_| ())),
              ("named", elm('!').map(|_| ()).name(text)),
              ("named twice", elm('!').map(|_| ()).name(text).name(lit)),
              ("map_res", take(1).map_res(move |_| Err::<(), String>(text.to_string()))),
              ("custom", failed(ParseError::of_custom(0, None, text.to_string()), CommittedStatus::Committed)),
              ("custom inner", failed(ParseError::of_custom(0, Some(Box::new(ParseError::of_custom(0, None, lit.to_string()))), text.to_string()), CommittedStatus::Committed)),
              ("not", OperatorParser::not(tag(text))),
              ("regex", regex("!+").map(|_| ())),
              ("one of", elm_of::<char, str>("!\u{3042}").map(|_| ()).of_count(n + 9).map(|_| ())),
            ];
            let mut fp = 0;
            for (k, p) in ps {
              if let Err(e) = p.run(&ParseState::new(w, 0)).to_result() {
                let t = e.to_string();
                if t.is_empty() {
                  return Err(format!("{}: nothing is displayed", k));
                }
                let (i, s) = (e.input().map(|x| x.iter().collect::<String>()), e.input_string());
                if i != s {
                  return Err(format!("{}: text {:?} for input {:?}", k, s, i));
                }
                fp = h64(&(fp, t, format!("{:?}", e).len() > 0));
              }
            }
            let p = seq(Box::leak(lit.as_bytes().to_vec().into_boxed_slice()) as &'static [u8]);
            if let Err(e) = p.run(&ParseState::new(bytes, 0)).to_result() {
              fp = h64(&(fp, e.to_string().is_empty(), e.input_string().is_some(), e.input().map(|x| x.len())));
            }
            Ok(fp)
          },
        );
      }
    }
  }
}
