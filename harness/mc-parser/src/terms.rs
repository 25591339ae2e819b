//! P01, P02, P05, P06, P08, P09: families of parser terms against the reference interpreter.

use crate::term::*;
use mc_core::{h64, words, Ctx};
use oni_comb_parser_rs::prelude::*;
use T::*;

/// Runs term `t` on every word/offset; one case per (term, word) covering all offsets.
pub fn compare_term(ctx: &mut Ctx, t: &T, inputs: &[Vec<char>], offsets: usize) {
  let parser_src = t;
  for w in inputs {
    let mut model = Model::new(w);
    let mut want = vec![];
    for off in 0..=w.len().min(offsets) {
      want.push(model.eval(parser_src, off));
    }
    ctx.steps(model.steps);
    for off in 0..want.len() {
      ctx.state(h64(&(parser_src, w, off)));
    }
    let probes = model.probes;
    ctx.case(
      || format!("{} on {:?}", t.show(), w.iter().collect::<String>()),
      || {
        PROBE.with(|p| p.set(0));
        let parser = build(parser_src);
        let mut fp = 0u64;
        for (off, want) in want.iter().enumerate() {
          let got = observe(&parser.run(&ParseState::new(w, off)));
          if got != *want {
            return Err(format!("at offset {}: expected {}, got {}", off, show_r(want), show_r(&got)));
          }
          fp = h64(&(fp, &got));
        }
        let seen = PROBE.with(|p| p.get());
        if seen > probes {
          return Err(format!("a decided choice still evaluated a later branch ({} probe runs, {} expected)", seen, probes));
        }
        Ok(fp)
      },
    );
  }
}

/// The error a choice or an attempt fails with is the error of the alternative that decided it.
fn same_failure(ctx: &mut Ctx, t: &T, inputs: &[Vec<char>]) {
  if !matches!(t, Or(..) | Attempt(..)) {
    return;
  }
  ctx.steps(inputs.len() as u64);
  ctx.case(
    || format!("{}: whose error it fails with", t.show()),
    || {
      let p = build(t);
      let (first, second) = match t {
        Or(a, b) => (build(a), Some(build(b))),
        Attempt(a) => (build(a), None),
        _ => unreachable!(),
      };
      let mut fp = 0u64;
      for w in inputs {
        for off in 0..=w.len() {
          let state = ParseState::new(w, off);
          let error = match p.run(&state) {
            ParseResult::Failure { error, .. } => error,
            _ => continue,
          };
          let want = match (first.run(&state), &second) {
            (ParseResult::Failure { committed_status: CommittedStatus::Uncommitted, .. }, Some(b)) => b.run(&state).failure(),
            (ParseResult::Failure { error, .. }, _) => Some(error),
            _ => None,
          };
          if want.as_ref() != Some(&error) {
            return Err(format!("on {:?} offset {}: failed with {:?}, the deciding part with {:?}", w.iter().collect::<String>(), off, error, want));
          }
          fp += 1;
        }
      }
      Ok(fp)
    },
  );
}

fn chars(s: &str) -> Vec<char> {
  s.chars().collect()
}

pub fn p01_gen() -> Gen {
  Gen {
    leaves: vec![
      Elm('a'), Elm('b'), Tag("ab"), Tag("ba"), Seq(&['a', 'a']), Succ(1), FailU, FailC, Succ(100),
    ],
    unary: vec![Attempt, Opt, Exists, Not, Peek],
    binary: vec![Or, Then, SkipR, Bind],
    ternary: vec![],
  }
}

pub fn p01(ctx: &mut Ctx) {
  crate::long::p01(ctx);
  let inputs = words(&['a', 'b'], 4);
  let short = words(&['a', 'b'], 3);
  p01_gen().visit(ctx.pick(5, 6), &mut |t| {
    if !ctx.full() && ctx.mine() {
      compare_term(ctx, t, &inputs, 9);
      same_failure(ctx, t, &short);
    }
  });
  // deep left- and right-nested choices and binds over every branch selection
  let br: Vec<T> = vec![Tag("ab"), Attempt(bx(Tag("ab"))), Tag("aa"), Elm('b'), Bind(bx(Elm('a')), bx(Elm('b'))), FailC, Succ(100)];
  let n = br.len();
  for i in 0..n * n * n * n {
    if ctx.full() {
      return;
    }
    if !ctx.mine() {
      continue;
    }
    let pick = |k: usize| bx(br[i / n.pow(k as u32) % n].clone());
    compare_term(ctx, &Or(bx(Or(bx(Or(pick(0), pick(1))), pick(2))), pick(3)), &inputs, 9);
    compare_term(ctx, &Or(pick(0), bx(Or(pick(1), bx(Or(pick(2), pick(3)))))), &inputs, 9);
    compare_term(ctx, &Or(bx(Opt(bx(Or(pick(0), pick(1))))), bx(Then(pick(2), pick(3)))), &inputs, 9);
    compare_term(ctx, &BindIf(pick(0), bx(Or(pick(1), pick(2))), pick(3)), &inputs, 9);
    same_failure(ctx, &Or(bx(Or(bx(Or(pick(0), pick(1))), pick(2))), pick(3)), &short);
    same_failure(ctx, &Or(pick(0), bx(Or(pick(1), bx(Or(pick(2), pick(3)))))), &short);
  }
  // CommittedStatus algebra
  let cs = [CommittedStatus::Committed, CommittedStatus::Uncommitted];
  for a in cs {
    for b in cs {
      ctx.case(
        || format!("{:?}.or({:?})", a, b),
        || {
          let c = a.or(b);
          let want = a == CommittedStatus::Committed || b == CommittedStatus::Committed;
          if c.is_committed() != want || c.is_uncommitted() == want {
            return Err(format!("composition gave {:?}", c));
          }
          if a.is_committed() != (a == CommittedStatus::Committed) || CommittedStatus::from(want) != c {
            return Err("commitment flag and value disagree".into());
          }
          Ok(want as u64)
        },
      );
    }
  }
  // result-level commitment operations
  for committed in [false, true] {
    for add in [false, true] {
      ctx.case(
        || format!("failure({}).add_commit({}) / with_uncommitted / advance", committed, add),
        || {
          let mk = || ParseResult::<char, u8>::failed(ParseError::of_in_complete(), committed.into());
          if mk().add_commit(add).committed_status() != Some((committed || add).into()) {
            return Err("add_commit is not the disjunction".into());
          }
          if mk().with_uncommitted().committed_status() != Some(CommittedStatus::Uncommitted) {
            return Err("with_uncommitted left a commitment".into());
          }
          if mk().advance_success(2).committed_status() != Some(committed.into()) {
            return Err("advancing changed a failure".into());
          }
          match ParseResult::<char, u8>::successful(7, 1).add_commit(add).with_uncommitted().advance_success(2) {
            ParseResult::Success { value: 7, length: 3 } => Ok(2),
            x => Err(format!("a success was altered: {:?}", x)),
          }
        },
      );
    }
  }
}

pub fn p02(ctx: &mut Ctx) {
  crate::long::p02(ctx);
  let g = Gen {
    leaves: vec![Elm('a'), Any, Tag("ab"), Unit, Take(2), Skip(1), End],
    unary: vec![Collect, Discard, Last, Next, MapTag],
    binary: vec![Then, SkipL, SkipR, Bind],
    ternary: vec![Surround],
  };
  let inputs = words(&['a', 'b'], 4);
  g.visit(ctx.pick(5, 6), &mut |t| {
    if !ctx.full() && ctx.mine() {
      compare_term(ctx, t, &inputs, 9);
    }
  });
  // long spines: every assignment of sequencing operators over five distinct components
  let ops: Vec<fn(Box<T>, Box<T>) -> T> = vec![Then, SkipL, SkipR, Bind];
  let n = ops.len();
  let inputs: Vec<Vec<char>> = vec![chars("aabab"), chars("aababb"), chars("baabab"), chars("aabaa"), chars("aab"), chars("")];
  let comps: Vec<T> = vec![Elm('a'), Take(1), Collect(bx(Tag("ba"))), Next(bx(Any)), Last(bx(Opt(bx(Elm('b')))))];
  for i in 0..n.pow(4) {
    if ctx.full() {
      return;
    }
    if !ctx.mine() {
      continue;
    }
    let op = |k: u32| ops[i / n.pow(k) % n];
    let c = |k: usize| bx(comps[k].clone());
    let left = op(3)(bx(op(2)(bx(op(1)(bx(op(0)(c(0), c(1))), c(2))), c(3))), c(4));
    let right = op(3)(c(0), bx(op(2)(c(1), bx(op(1)(c(2), bx(op(0)(c(3), c(4))))))));
    let mid = op(3)(bx(op(0)(c(0), c(1))), bx(op(2)(c(2), bx(op(1)(c(3), c(4))))));
    for t in [left, right, mid] {
      compare_term(ctx, &t, &inputs, 9);
      compare_term(ctx, &Collect(bx(t.clone())), &inputs, 9);
      compare_term(ctx, &Surround(bx(Opt(bx(Elm('b')))), bx(t), bx(Opt(bx(Elm('b'))))), &inputs, 9);
    }
  }
}

pub fn p05(ctx: &mut Ctx) {
  crate::long::p05(ctx);
  let items: Vec<T> = vec![
    Elm('a'), Any, Tag("ab"), Attempt(bx(Tag("ab"))), Or(bx(Elm('a')), bx(Elm('b'))), Take(2), Unit, Opt(bx(Elm('a'))), Peek(bx(Elm('a'))),
    Then(bx(Elm('a')), bx(Opt(bx(Elm('b'))))), Bind(bx(Elm('a')), bx(Elm('b'))), FailC, FailU, Next(bx(Any)), Collect(bx(Then(bx(Any), bx(Elm('b'))))),
    Succ(1), NoneOf("b"), Rep(bx(Elm('a')), Rng::NM(1, 2)), End,
  ];
  let seps: Vec<T> = vec![Elm('b'), Any, Tag("bb"), Unit, Opt(bx(Elm('b'))), FailC, FailU, Peek(bx(Elm('b'))), Elm('a')];
  let mut rngs = vec![Rng::Many0, Rng::Many1, Rng::Full];
  for n in 0..=4usize {
    rngs.push(Rng::Count(n));
    rngs.push(Rng::Exact(n));
    rngs.push(Rng::ToInc(n));
    rngs.push(Rng::From(n));
    if n > 0 {
      rngs.push(Rng::To(n));
    }
    for m in n..=4 {
      if m <= n + 2 {
        rngs.push(Rng::NM(n, m));
        rngs.push(Rng::Inc(n, m));
      }
      if m > n && m <= n + 3 {
        rngs.push(Rng::Half(n, m));
      }
    }
  }
  let plain = if ctx.thorough() { words(&['a', 'b', 'c'], 7) } else { words(&['a', 'b', 'c'], 5) };
  let ctxin = words(&['a', 'b'], ctx.pick(5, 6));
  for it in &items {
    for r in &rngs {
      if ctx.full() {
        return;
      }
      if ctx.mine() {
        let t = Rep(bx(it.clone()), *r);
        compare_term(ctx, &t, &plain, 9);
        compare_term(ctx, &Then(bx(t.clone()), bx(Rep(bx(Any), Rng::Many0))), &ctxin, 1);
        compare_term(ctx, &Collect(bx(Then(bx(Opt(bx(Elm('b')))), bx(t.clone())))), &ctxin, 1);
        compare_term(ctx, &Or(bx(SkipR(bx(t.clone()), bx(End))), bx(Rep(bx(Any), Rng::Many0))), &ctxin, 1);
        compare_term(ctx, &Next(bx(t.clone())), &ctxin, 1);
      }
      for s in &seps {
        if ctx.full() {
          return;
        }
        if !ctx.mine() {
          continue;
        }
        let t = RepSep(bx(it.clone()), bx(s.clone()), *r);
        compare_term(ctx, &t, &plain, 1);
        compare_term(ctx, &Then(bx(t.clone()), bx(Rep(bx(Any), Rng::Many0))), &ctxin, 0);
      }
    }
  }
  // repetition of repetition
  for r1 in [Rng::Many0, Rng::Many1, Rng::NM(0, 2), Rng::Count(2), Rng::NM(1, 2)] {
    for r2 in [Rng::Many0, Rng::Many1, Rng::NM(0, 2), Rng::Count(2), Rng::Half(1, 3)] {
      if ctx.mine() {
        let t = Rep(bx(RepSep(bx(Elm('a')), bx(Elm('b')), r1)), r2);
        compare_term(ctx, &t, &plain, 9);
        let t = RepSep(bx(Rep(bx(Elm('a')), r1)), bx(Elm('b')), r2);
        compare_term(ctx, &t, &plain, 9);
      }
    }
  }
}

pub fn p06(ctx: &mut Ctx) {
  crate::long::p06(ctx);
  let operands: Vec<T> = vec![
    Elm('x'), Or(bx(Elm('x')), bx(Elm('y'))), Tag("xy"), Attempt(bx(Tag("xy"))), Bind(bx(Elm('x')), bx(Elm('y'))),
    Surround(bx(Elm('x')), bx(Any), bx(Elm('x'))), Then(bx(Elm('x')), bx(Opt(bx(Elm('y'))))), NoneOf("+-"),
  ];
  let operators: Vec<T> = vec![
    Elm('+'), Or(bx(Elm('+')), bx(Elm('-'))), Tag("+-"), Attempt(bx(Tag("+-"))), SkipL(bx(Elm('+')), bx(Elm('-'))), NoneOf("xy"),
  ];
  let forms: Vec<fn(Box<T>, Box<T>) -> T> = vec![ChainL1, ChainR1, ScanR1, ChainL0, ChainR0, RestL1, RestR1];
  let inputs = words(&['x', 'y', '+', '-'], ctx.pick(7, 9));
  let mut long: Vec<Vec<char>> = vec![];
  for pat in 0..32u32 {
    // chains of up to 6 operands with every +/- choice, closed and dangling
    let mut s = String::from("x");
    for k in 0..5 {
      s.push(if pat >> k & 1 == 1 { '-' } else { '+' });
      s.push(if k % 2 == 0 { 'y' } else { 'x' });
      long.push(s.chars().collect());
      long.push(format!("{}+", s).chars().collect());
      long.push(format!("{}+-", s).chars().collect());
      long.push(format!("y{}", s).chars().collect());
    }
  }
  long.sort();
  long.dedup();
  let small = words(&['x', 'y', '+', '-'], 4);
  for f in &forms {
    for p in &operands {
      for o in &operators {
        let t = f(bx(p.clone()), bx(o.clone()));
        // the product is split further so that shards stay balanced
        for chunk in inputs.chunks(1024) {
          if ctx.full() {
            return;
          }
          if ctx.mine() {
            compare_term(ctx, &t, chunk, 0);
          }
        }
        if ctx.mine() {
          compare_term(ctx, &t, &long, 2);
          compare_term(ctx, &t, &small, 9);
          compare_term(ctx, &Collect(bx(t.clone())), &small, 1);
          compare_term(ctx, &Then(bx(t.clone()), bx(Rep(bx(Any), Rng::Many0))), &small, 1);
          compare_term(ctx, &Or(bx(t.clone()), bx(Rep(bx(Any), Rng::Many0))), &small, 1);
          compare_term(ctx, &Opt(bx(t.clone())), &small, 1);
          compare_term(ctx, &Then(bx(Opt(bx(Elm('y')))), bx(Next(bx(t.clone())))), &small, 1);
        }
      }
    }
  }
}

fn mixed_gen() -> Gen {
  Gen {
    leaves: vec![
      Elm('a'), Any, NoneOf("a"), Tag("ab"), Tag("éa"), Seq(&['a', 'b']), Unit, FailU, FailC, End, Take(2), Skip(2), Succ(2), Tag("aba"),
    ],
    unary: vec![
      Attempt, Opt, Exists, Not, Peek, Collect, Discard, Last, Next, FilterTrueish, FilterNotTrueish, Conv, Name, Cache,
      |t| Rep(t, Rng::Count(2)), |t| Rep(t, Rng::NM(1, 3)), |t| Rep(t, Rng::NM(0, 2)), |t| RepSep(t, bx(Elm('b')), Rng::NM(2, 3)),
    ],
    binary: vec![Or, Then, SkipL, SkipR, Bind, ChainL1, ChainR1],
    ternary: vec![],
  }
}

pub fn p08(ctx: &mut Ctx) {
  crate::long::p08(ctx);
  crate::kinds::p08(ctx);
  let g = Gen {
    leaves: vec![Elm('a'), Any, Tag("ab"), Succ(100), FailC, Next(bx(Any))],
    unary: vec![Opt, Peek, Cache, Lazy, Collect, |t| Rep(t, Rng::NM(1, 2))],
    binary: vec![Or, Then, Bind],
    ternary: vec![],
  };
  let inputs = words(&['a', 'b'], 3);
  let far: Vec<usize> = ctx.pick(vec![4, 7, 8, 15, 16, 17, 32, 63, 64, 127, 128, 255, 256, 300], (4..34).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 1000, 1024]).collect());
  // every word behind prefixes of those lengths
  let behind_inputs: Vec<(Vec<char>, Vec<(usize, Vec<char>)>)> = inputs
    .iter()
    .map(|w| {
      let alls = far.iter().flat_map(|n| ["a", "bé"].map(|fill| (*n, fill.chars().cycle().take(*n).chain(w.iter().copied()).collect())));
      (w.clone(), alls.collect())
    })
    .collect();
  // points a run can start from
  let mut pts: Vec<(usize, usize)> = vec![];
  for (i, w) in inputs.iter().enumerate() {
    for off in 0..=w.len() {
      pts.push((i, off));
    }
  }
  g.visit(ctx.pick(4, 5), &mut |t| {
    if ctx.full() || !ctx.mine() {
      return;
    }
    let want: Vec<(R, u64)> = pts
      .iter()
      .map(|(i, off)| {
        let mut m = Model::new(&inputs[*i]);
        let r = m.eval(t, *off);
        ctx.steps(m.steps);
        (r, m.probes)
      })
      .collect();
    // every history of three runs: first on the original, second on a clone, third on the original
    for a in 0..pts.len() {
      ctx.state(h64(&(t, a)));
      ctx.case(
        || format!("{}: histories starting at {:?}", t.show(), (inputs[pts[a].0].iter().collect::<String>(), pts[a].1)),
        || {
          let p = build(t);
          let q = p.clone();
          let lz = build(&Lazy(bx(t.clone())));
          let run = |p: &Parser<char, V>, k: usize, who: &str| -> Result<(), String> {
            PROBE.with(|x| x.set(0));
            let got = observe(&p.run(&ParseState::new(unsafe_static(&inputs[pts[k].0]), pts[k].1)));
            let probes = PROBE.with(|x| x.get());
            if got != want[k].0 {
              return Err(format!(
                "{} at {:?}/{}: expected {}, got {}",
                who,
                inputs[pts[k].0],
                pts[k].1,
                show_r(&want[k].0),
                show_r(&got)
              ));
            }
            if probes > want[k].1 {
              return Err(format!("{} at {:?}/{} evaluated a branch it had no reason to", who, inputs[pts[k].0], pts[k].1));
            }
            Ok(())
          };
          let mut n = 0u64;
          for b in 0..pts.len() {
            run(&p, a, "first run")?;
            run(&q, b, "clone after run")?;
            run(&p, a, "repeated run")?;
            run(&lz, b, "lazily built")?;
            n += 4;
          }
          drop(p);
          run(&q, a, "clone after original was dropped")?;
          Ok(h64(&(n, &want[a].0)))
        },
      );
      ctx.note("runs_in_histories", pts.len() as u64 * 4 + 1);
    }
    // the same failure, whoever runs it and however often
    ctx.case(
      || format!("{}: errors of repeated runs", t.show()),
      || {
        let p = build(t);
        let q = p.clone();
        let others = [("a repeated run", build(t)), ("a clone", q), ("a lazily built parser", build(&Lazy(bx(t.clone()))))];
        let mut fp = 0u64;
        for (i, off) in &pts {
          let state = ParseState::new(unsafe_static(&inputs[*i]), *off);
          let first = p.run(&state).failure();
          for (who, o) in &others {
            o.run(&state);
            let again = o.run(&state).failure();
            if first != again {
              return Err(format!("{} on {:?}/{} failed with {:?}, the first run with {:?}", who, inputs[*i], off, again, first));
            }
          }
          fp += first.is_some() as u64;
        }
        Ok(fp)
      },
    );
    // translation: offset k of w behaves like offset 0 of w[k..] (values carrying offsets excepted)
    let has_off = t.show().contains("_offset");
    for w in &inputs {
      ctx.case(
        || format!("{}: suffix equivalence on {:?}", t.show(), w.iter().collect::<String>()),
        || {
          let p = build(t);
          let mut fp = 0;
          for k in 0..=w.len() {
            let x = observe(&p.run(&ParseState::new(w, k)));
            let y = observe(&build(t).parse(&w[k..]));
            let same = if has_off {
              match (&x, &y) {
                (Ok((_, n)), Ok((_, m))) => n == m,
                (Err(a), Err(b)) => a == b,
                _ => false,
              }
            } else {
              x == y
            };
            if !same {
              return Err(format!("offset {} gives {}, the suffix gives {}", k, show_r(&x), show_r(&y)));
            }
            fp = h64(&(fp, x));
          }
          Ok(fp)
        },
      );
    }
    behind(ctx, t, &behind_inputs);
  });
  mixed_gen().visit(4, &mut |t| {
    if !ctx.full() && !endless(t) && ctx.mine() {
      behind(ctx, t, &behind_inputs);
    }
  });
}

/// A parser far behind the beginning of the input does what it does at the beginning.
fn behind(ctx: &mut Ctx, t: &T, inputs: &[(Vec<char>, Vec<(usize, Vec<char>)>)]) {
  let show = t.show();
  let has_off = show.contains("_offset");
  if has_off && (show.contains(".filter") || show.contains(".map_res")) {
    // looks at the offset itself
    return;
  }
  ctx.state(h64(&("behind", t)));
  ctx.steps((inputs.len() * inputs[0].1.len()) as u64);
  ctx.case(
    || format!("{}: suffix equivalence behind long prefixes", t.show()),
    || {
      let p = build(t);
      let mut fp = 0;
      for (w, alls) in inputs {
        let y = observe(&build(t).parse(unsafe_static(w)));
        for (before, all) in alls {
          let x = observe(&p.run(&ParseState::new(unsafe_static(all), *before)));
          let same = match (&x, &y) {
            (Ok((_, n)), Ok((_, m))) if has_off => n == m,
            _ => x == y,
          };
          if !same {
            return Err(format!("{:?} behind {} elements gives {}, alone {}", w.iter().collect::<String>(), before, show_r(&x), show_r(&y)));
          }
          fp = h64(&(fp, x));
        }
      }
      Ok(fp)
    },
  );
}

/// Inputs outlive every parser built in a check (they live in the caller's vectors).
fn unsafe_static(v: &[char]) -> &'static [char] {
  unsafe { std::slice::from_raw_parts(v.as_ptr(), v.len()) }
}

/// Everything a user can do with an error, on characters.
pub fn inspect(e: &ParseError<char>, input: &[char], off: usize, depth: usize) -> Result<u64, String> {
  let text = e.to_string();
  if text.is_empty() {
    return Err("error displays as an empty text".into());
  }
  let kinds = [e.is_mismatch(), e.is_conversion(), e.is_in_complete(), e.is_expect(), e.is_custom()];
  if kinds.iter().filter(|k| **k).count() != 1 {
    return Err(format!("error claims kinds {:?}", kinds));
  }
  let slice = e.input();
  let s = e.input_string();
  if slice.map(|x| x.iter().collect::<String>()) != s {
    return Err("offending text differs from offending input".into());
  }
  if let Some(x) = slice {
    let base = input.as_ptr() as usize;
    let at = x.as_ptr() as usize;
    let sz = std::mem::size_of::<char>();
    let inside = at >= base && at + x.len() * sz <= base + input.len() * sz;
    // errors built by the user's own fail() leaves carry no input
    if !inside {
      return Err(format!("offending input {:?} is not part of the parsed input", x));
    }
    let start = (at - base) / sz;
    if start < off {
      return Err(format!("offending input starts at {} before the parser's own position {}", start, off));
    }
  }
  let o = match e {
    ParseError::Mismatch { offset, .. } | ParseError::Conversion { offset, .. } | ParseError::Expect { offset, .. } | ParseError::Custom { offset, .. } => Some(*offset),
    ParseError::Incomplete => None,
  };
  if let Some(o) = o {
    if o > input.len() + 1 {
      return Err(format!("reported offset {} is beyond the input of {} elements", o, input.len()));
    }
  }
  match e {
    ParseError::Expect { inner, .. } | ParseError::Custom { inner: Some(inner), .. } if depth < 8 => {
      inspect(inner, input, off, depth + 1)?;
    }
    _ => {}
  }
  let dbg = format!("{:?}", e);
  Ok(h64(&(text, s, dbg.len() > 0)))
}

/// Errors made by the caller, of every kind around every kind, as the failure of a parser.
fn p09_made(ctx: &mut Ctx) {
  type E = ParseError<'static, char>;
  let input: &'static [char] = Box::leak(chars("aébc").into_boxed_slice());
  // (kind, error); kinds as in `inspect`
  let mut made: Vec<(String, usize, E)> = vec![("incomplete".into(), 2, ParseError::of_in_complete())];
  for at in 0..=input.len() {
    for len in [0, 1, 2, 3, 4, 5, 17, usize::MAX] {
      for text in ["", "m"] {
        made.push((format!("mismatch({}, {}, {:?})", at, len, text), 0, ParseError::of_mismatch(&input[at..], at, len, text.into())));
        made.push((format!("conversion({}, {}, {:?})", at, len, text), 1, ParseError::of_conversion(&input[at..], at, len, text.into())));
      }
    }
    made.push((format!("custom({})", at), 4, ParseError::of_custom(at, None, "c".into())));
  }
  let mut from = 0;
  for _ in 0..ctx.pick(2, 4) {
    let to = made.len();
    for i in from..to {
      let (name, _, e) = made[i].clone();
      made.push((format!("expect {}", name), 3, ParseError::of_expect(1, Box::new(e.clone()), "x".into())));
      made.push((format!("custom {}", name), 4, ParseError::of_custom(2, Some(Box::new(e)), "y".into())));
    }
    from = to;
  }
  for (name, kind, e) in &made {
    if ctx.full() || !ctx.mine() {
      continue;
    }
    ctx.state(h64(&("made", name)));
    ctx.steps(3);
    ctx.case(
      || format!("error made by the caller: {}", name),
      || {
        let mut fp = 0;
        let leaf = || failed::<char, char>(e.clone(), CommittedStatus::Uncommitted);
        for p in [leaf(), elm('z') | leaf(), (take(1) * leaf()).attempt()] {
          match p.parse(input).failure() {
            None => return Err("did not fail".into()),
            Some(got) => {
              if got != *e {
                return Err(format!("failed with {:?}", got));
              }
              let kinds = [got.is_mismatch(), got.is_conversion(), got.is_in_complete(), got.is_expect(), got.is_custom()];
              if !kinds[*kind] {
                return Err(format!("kinds {:?}", kinds));
              }
              fp = h64(&(fp, inspect(&got, input, 0, 0)?));
            }
          }
        }
        Ok(fp)
      },
    );
  }
}

pub fn p09(ctx: &mut Ctx) {
  p09_made(ctx);
  crate::long::p09(ctx);
  crate::long::p09_messages(ctx);
  let g = mixed_gen();
  let inputs = words(&['a', 'b', 'é'], 3);
  let more: Vec<Vec<char>> = ["abab", "aaaa", "babab", "abbab", "ééab", "abaé"].iter().map(|s| chars(s)).collect();
  g.visit(ctx.pick(4, 5), &mut |t| {
    // a chain whose operator and operand both match nothing has no finite meaning
    if ctx.full() || !ctx.mine() || endless(t) {
      return;
    }
    for w in inputs.iter().chain(more.iter()) {
      let mut m = Model::new(w);
      let fails: Vec<usize> = (0..=w.len()).filter(|o| m.eval(t, *o).is_err()).collect();
      ctx.steps(fails.len() as u64 * 8);
      if fails.is_empty() {
        continue;
      }
      for o in &fails {
        ctx.state(h64(&(t, w, o)));
      }
      ctx.case(
        || format!("error of {} on {:?}", t.show(), w.iter().collect::<String>()),
        || {
          let p = build(t);
          let mut fp = 0;
          for off in &fails {
            match p.run(&ParseState::new(w, *off)).to_result() {
              Ok(v) => return Err(format!("offset {}: expected a failure, got {:?}", off, v)),
              Err(e) => fp = h64(&(fp, inspect(&e, w, *off, 0).map_err(|x| format!("offset {}: {}", off, x))?)),
            }
          }
          Ok(fp)
        },
      );
    }
  });
  // the offending element itself, for single-element parsers
  for (name, p) in crate::elems::char_failers() {
    for w in inputs.iter().chain(more.iter()) {
      if !ctx.mine() {
        continue;
      }
      ctx.case(
        || format!("offending element of {} on {:?}", name, w.iter().collect::<String>()),
        || {
          let p = p();
          for off in 0..=w.len() {
            if let Err(e) = p.run(&ParseState::new(unsafe_static(w), off)).to_result() {
              inspect(&e, w, off, 0).map_err(|x| format!("offset {}: {}", off, x))?;
              if let Some(x) = e.input() {
                let want = &w[off..(off + 1).min(w.len())];
                if x != want && !x.is_empty() {
                  return Err(format!("offset {}: offending input is {:?}, the element there is {:?}", off, x, want));
                }
              }
            }
          }
          Ok(1)
        },
      );
    }
  }
  // bytes: text of arbitrary (also invalid UTF-8) offending input never crashes
  let bytes = words(&[b'a', b'b', 0xC3, 0xA9], 3);
  type P<'a> = Parser<'a, u8, Vec<u8>>;
  let ps: Vec<(&str, fn() -> P<'static>)> = vec![
    ("seq(ab)", || seq(b"ab")),
    ("seq(a C3 A9)", || seq(&[b'a', 0xC3, 0xA9])),
    ("elm(a)x2", || elm(b'a').of_count(2)),
    ("elm_of", || elm_of::<u8, [u8; 2]>(b"ab").of_many_n_m(2, 3)),
    ("end", || end().map(|_| vec![])),
    ("not", || OperatorParser::not(elm_any::<u8>()).map(|_| vec![])),
    ("map_res", || take(2).map_res(|s: &[u8]| std::str::from_utf8(s).map(|s| s.as_bytes().to_vec()))),
    ("named", || seq(b"ab").name("n")),
    ("skip-then-seq", || elm_any() * seq(b"ab")),
  ];
  for (name, p) in ps {
    for w in &bytes {
      if !ctx.mine() {
        continue;
      }
      ctx.case(
        || format!("error of byte parser {} on {:?}", name, w),
        || {
          let p = p();
          let w: &'static [u8] = unsafe { std::slice::from_raw_parts(w.as_ptr(), w.len()) };
          for off in 0..=w.len() {
            if let Err(e) = p.run(&ParseState::new(w, off)).to_result() {
              let _ = e.to_string();
              let s = e.input().map(|x| x.to_vec());
              let t = e.input_string();
              if s.is_some() != t.is_some() {
                return Err(format!("offset {}: input present={} text present={}", off, s.is_some(), t.is_some()));
              }
              if let (Some(s), Some(t)) = (s, t) {
                if let Ok(u) = std::str::from_utf8(&s) {
                  if u != t {
                    return Err(format!("offset {}: text {:?} differs from input {:?}", off, t, u));
                  }
                }
              }
            }
          }
          Ok(2)
        },
      );
    }
  }
}

fn may_be_empty(t: &T) -> bool {
  match t {
    Elm(_) | Any | NoneOf(_) | FailU | FailC => false,
    Tag(s) => s.is_empty(),
    Seq(s) => s.is_empty(),
    Unit | Succ(_) | End | Opt(_) | Exists(_) | Not(_) | Peek(_) => true,
    Take(n) | Skip(n) => *n == 0,
    Attempt(a) | Collect(a) | Discard(a) | Last(a) | Next(a) | MapTag(a) | FilterTrueish(a) | FilterNotTrueish(a) | Conv(a) | Name(a)
    | Log(a, _) | Cache(a) | Lazy(a) => may_be_empty(a),
    Rep(a, r) | RepSep(a, _, r) => r.bounds().0 == 0 || may_be_empty(a),
    Or(a, b) => may_be_empty(a) || may_be_empty(b),
    Then(a, b) | SkipL(a, b) | SkipR(a, b) | Bind(a, b) => may_be_empty(a) && may_be_empty(b),
    BindIf(a, b, c) => may_be_empty(a) && (may_be_empty(b) || may_be_empty(c)),
    Surround(a, b, c) => may_be_empty(a) && may_be_empty(b) && may_be_empty(c),
    ChainL1(a, _) | ChainR1(a, _) | ScanR1(a, _) => may_be_empty(a),
    ChainL0(..) | ChainR0(..) | RestL1(..) | RestR1(..) => true,
  }
}

pub fn endless(t: &T) -> bool {
  match t {
    ChainL1(a, b) | ChainR1(a, b) | ScanR1(a, b) | ChainL0(a, b) | ChainR0(a, b) | RestL1(a, b) | RestR1(a, b) => {
      (may_be_empty(a) && may_be_empty(b)) || endless(a) || endless(b)
    }
    Or(a, b) | Then(a, b) | SkipL(a, b) | SkipR(a, b) | Bind(a, b) | RepSep(a, b, _) => endless(a) || endless(b),
    BindIf(a, b, c) | Surround(a, b, c) => endless(a) || endless(b) || endless(c),
    Attempt(a) | Opt(a) | Exists(a) | Not(a) | Peek(a) | Collect(a) | Discard(a) | Last(a) | Next(a) | MapTag(a) | FilterTrueish(a)
    | FilterNotTrueish(a) | Conv(a) | Name(a) | Log(a, _) | Cache(a) | Lazy(a) | Rep(a, _) => endless(a),
    _ => false,
  }
}
