//! P10 (laws of map / bind / filter / convert) and P11 (aliases, naming, logging).

use crate::term::*;
use mc_core::{h64, words, Ctx};
use oni_comb_parser_rs::prelude::*;
use T::*;

type Pr<'a> = Parser<'a, char, V>;

fn f1(v: V) -> V {
  V::some(v)
}
fn f2(v: V) -> V {
  V::L(vec![v.clone(), v])
}
/// Kleisli arrows over terms: value-dependent continuations.
fn arrow<'a>(k: usize, v: V) -> Pr<'a> {
  match k {
    0 => successful(V::some(v)),
    1 => elm('a').map(move |c| V::pair(v.clone(), V::C(c))),
    2 => {
      if trueish(&v) {
        tag("ab").map(V::S)
      } else {
        elm_any().map(V::C)
      }
    }
    3 => failed(ParseError::of_custom(0, None, "x".into()), CommittedStatus::Uncommitted),
    4 => failed(ParseError::of_custom(0, None, "x".into()), CommittedStatus::Committed),
    _ => elm('b').attempt().of_many0().map(move |l| V::L(vec![v.clone(), V::N(l.len())])),
  }
}
const ARROWS: usize = 6;

/// Applies arrow k to a reference result.
fn arrow_model(k: usize, v: V, m: &mut Model, pos: usize) -> R {
  let i = m.input;
  m.steps += 1;
  match k {
    0 => Ok((V::some(v), 0)),
    1 => match i.get(pos) {
      Some('a') => Ok((V::pair(v, V::C('a')), 1)),
      _ => Err(false),
    },
    2 => {
      if trueish(&v) {
        m.eval(&Tag("ab"), pos)
      } else {
        m.eval(&Any, pos)
      }
    }
    3 => Err(false),
    4 => Err(true),
    _ => {
      let n = i[pos..].iter().take_while(|c| **c == 'b').count();
      Ok((V::L(vec![v, V::N(n)]), n))
    }
  }
}

fn bind_model(r: R, k: usize, m: &mut Model, pos: usize) -> R {
  let (v, n) = r?;
  let (w, k2) = arrow_model(k, v, m, pos + n).map_err(|c| c || n != 0)?;
  Ok((w, n + k2))
}

/// Every offset of a short word, some of a long one.
fn offsets(w: &[char]) -> Vec<usize> {
  if w.len() <= 12 {
    (0..=w.len()).collect()
  } else {
    vec![0, 1, w.len() / 2, w.len() - 1, w.len()]
  }
}

/// Runs both sides of a law on every point and compares with each other and with the reference.
fn law<'a>(
  ctx: &mut Ctx,
  name: &dyn Fn() -> String,
  inputs: &'a [Vec<char>],
  sides: &[&dyn Fn() -> Pr<'a>],
  want: &dyn Fn(&mut Model, usize) -> R,
  commit_matters: bool,
) {
  ctx.steps(inputs.iter().map(|w| (w.len() as u64 + 1) * sides.len() as u64).sum());
  ctx.state(h64(&name()));
  ctx.case(name, || {
    let ps: Vec<Pr> = sides.iter().map(|s| s()).collect();
    let mut fp = 0;
    for w in inputs {
      for off in offsets(w) {
        let mut m = Model::new(w);
        let want = want(&mut m, off);
        for (i, p) in ps.iter().enumerate() {
          let got = observe(&p.run(&ParseState::new(w, off)));
          let same = match (&got, &want) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => a == b || !commit_matters,
            _ => false,
          };
          if !same {
            return Err(format!("side {} on {:?} offset {}: expected {}, got {}", i + 1, w.iter().collect::<String>(), off, show_r(&want), show_r(&got)));
          }
          fp = h64(&(fp, &got));
        }
      }
    }
    Ok(fp)
  });
}

fn law_gen() -> Gen {
  Gen {
    leaves: vec![Elm('a'), Any, Tag("ab"), Take(2), Succ(1), FailC, FailU, Next(bx(Any))],
    unary: vec![Opt, Attempt, |t| Rep(t, Rng::NM(0, 2)), Peek],
    binary: vec![Or, Then, Bind],
    ternary: vec![],
  }
}

/// The laws for terms and inputs of every size.
fn long(ctx: &mut Ctx, check: &dyn Fn(&mut Ctx, &T, &'static [Vec<char>])) {
  for n in crate::long::lengths(ctx, 12) {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    let rep = |c: &str, k: usize| -> Vec<char> { c.repeat(k).chars().collect() };
    let cat = |parts: &[Vec<char>]| parts.concat();
    let (a, b) = (rep("a", n), rep("b", n));
    let inputs: &'static [Vec<char>] = Box::leak(
      vec![a.clone(), cat(&[a.clone(), rep("b", 2), a.clone()]), cat(&[a.clone(), rep("c", 1)]), cat(&[rep("a", 1), b.clone(), a.clone()]), cat(&[b, rep("ab", n)])].into_boxed_slice(),
    );
    let run = || Rep(bx(Elm('a')), Rng::Many0);
    for t in [
      Take(n),
      Rep(bx(Any), Rng::Count(n)),
      Tag(Box::leak("a".repeat(n).into_boxed_str())),
      Collect(bx(Then(bx(run()), bx(Opt(bx(Elm('b'))))))),
      Next(bx(Then(bx(Opt(bx(Elm('a')))), bx(Rep(bx(Elm('b')), Rng::Many1))))),
      Bind(bx(Skip(n)), bx(Any)),
      SkipR(bx(run()), bx(Elm('b'))),
      Rep(bx(Or(bx(Attempt(bx(Tag("ab")))), bx(Elm('b')))), Rng::From(n)),
    ] {
      check(ctx, &t, inputs);
    }
  }
}

/// What the underlying parser fails with is what the converted one fails with.
fn failures_pass(ctx: &mut Ctx, t: &T, inputs: &'static [Vec<char>]) {
  ctx.steps(inputs.len() as u64 * 9);
  ctx.case(
    || format!("failures pass through: {}", t.show()),
    || {
      let p = || build(t);
      let bare = p();
      let converted: Vec<(&str, Pr)> = vec![
        ("map", p().map(f1)),
        ("flat_map", p().flat_map(|v| arrow(1, v))),
        ("with_filter", p().with_filter(trueish)),
        ("with_filter_not", p().with_filter_not(trueish)),
        ("with_filter rejecting everything", p().with_filter(|_| false)),
        ("map_res", p().map_res(|v| Ok::<V, ()>(f1(v)))),
        ("map_res rejecting everything", p().map_res(|_| Err::<V, &str>("no"))),
        ("filter, map", p().with_filter(trueish).map(f1)),
        ("map, filter", p().map(f1).with_filter(trueish)),
      ];
      let mut fp = 0u64;
      for w in inputs {
        for off in offsets(w) {
          let state = ParseState::new(w, off);
          let Some(error) = bare.run(&state).failure() else { continue };
          for (name, q) in &converted {
            let got = q.run(&state).failure();
            if got.as_ref() != Some(&error) {
              return Err(format!("{} on {:?} offset {}: failed with {:?}, the parser itself with {:?}", name, w.iter().collect::<String>(), off, got, error));
            }
          }
          fp += 1;
        }
      }
      Ok(fp)
    },
  );
}

fn laws_of(ctx: &mut Ctx, t: &T, inputs: &'static [Vec<char>]) {
  failures_pass(ctx, t, inputs);
  let p = || build(t);
  let ev = |m: &mut Model, o: usize| m.eval(t, o);
  let s = || t.show();
  law(ctx, &|| format!("map id: {}", s()), inputs, &[&p, &|| p().map(|x| x)], &ev, true);
  law(
    ctx,
    &|| format!("map composition: {}", s()),
    inputs,
    &[&|| p().map(|x| f2(f1(x))), &|| p().map(f1).map(f2)],
    &|m, o| ev(m, o).map(|(v, n)| (f2(f1(v)), n)),
    true,
  );
  law(
    ctx,
    &|| format!("map is bind of pure: {}", s()),
    inputs,
    &[&|| p().map(f1), &|| p().flat_map(|x| successful(f1(x)))],
    &|m, o| ev(m, o).map(|(v, n)| (f1(v), n)),
    true,
  );
  law(ctx, &|| format!("right identity: {}", s()), inputs, &[&p, &|| p().flat_map(|x| successful(x)), &|| p().flat_map(|x| <Pr as ParserPure>::pure(move || x.clone()))], &ev, true);
  law(
    ctx,
    &|| format!("filter true/false: {}", s()),
    inputs,
    &[&|| p().with_filter(|_| true), &|| p().with_filter_not(|_| false)],
    &ev,
    true,
  );
  law(
    ctx,
    &|| format!("filter rejecting everything: {}", s()),
    inputs,
    &[&|| p().with_filter(|_| false), &|| p().with_filter_not(|_| true)],
    &|m, o| ev(m, o).and(Err(false)),
    true,
  );
  law(
    ctx,
    &|| format!("filter keeps what satisfies: {}", s()),
    inputs,
    &[
      &|| p().with_filter(|v| trueish(v)),
      &|| p().with_filter_not(|v| !trueish(v)),
      &|| p().with_filter(|v| trueish(v)).with_filter(|v| trueish(v)),
      &|| p().with_filter(|_| true).with_filter(|v| trueish(v)),
      &|| p().map_res(|v| if trueish(&v) { Ok(v) } else { Err(()) }),
    ],
    &|m, o| ev(m, o).and_then(|(v, n)| if trueish(&v) { Ok((v, n)) } else { Err(false) }),
    true,
  );
  law(
    ctx,
    &|| format!("filter_not keeps the others: {}", s()),
    inputs,
    &[&|| p().with_filter_not(|v| trueish(v)), &|| p().with_filter(|v| !trueish(v)), &|| p().map_res(|v| if trueish(&v) { Err("t") } else { Ok(v) })],
    &|m, o| ev(m, o).and_then(|(v, n)| if trueish(&v) { Err(false) } else { Ok((v, n)) }),
    true,
  );
  law(
    ctx,
    &|| format!("conversion: {}", s()),
    inputs,
    &[&|| p().map_res(|v| Ok::<V, ()>(f1(v))), &|| p().map(f1)],
    &|m, o| ev(m, o).map(|(v, n)| (f1(v), n)),
    true,
  );
  law(
    ctx,
    &|| format!("filter, map and bind composed: {}", s()),
    inputs,
    &[&|| p().with_filter(|v| trueish(v)).map(f1).flat_map(|v| arrow(1, v)), &|| {
      p().flat_map(|v| if trueish(&v) { successful(v) } else { failed(ParseError::of_in_complete(), CommittedStatus::Uncommitted) }).map(f1).flat_map(|v| arrow(1, v))
    }],
    &|m, o| {
      let r = ev(m, o).and_then(|(v, n)| if trueish(&v) { Ok((f1(v), n)) } else { Err(false) });
      bind_model(r, 1, m, o)
    },
    // a bind-encoded filter commits where the real one does not
    false,
  );
  for k in 0..ARROWS {
    law(ctx, &|| format!("left identity: arrow {} on value of {}", k, s()), inputs, &[&|| successful(V::s(&['x'])).flat_map(move |v| arrow(k, v)), &|| arrow(k, V::s(&['x']))], &|m, o| arrow_model(k, V::s(&['x']), m, o), true);
    law(
      ctx,
      &|| format!("bind: {} to arrow {}", s(), k),
      inputs,
      &[&|| p().flat_map(move |v| arrow(k, v))],
      &|m, o| {
        let r = ev(m, o);
        bind_model(r, k, m, o)
      },
      true,
    );
    for j in 0..ARROWS {
      law(
        ctx,
        &|| format!("associativity: {} to arrows {}, {}", s(), k, j),
        inputs,
        &[
          &|| p().flat_map(move |v| arrow(k, v)).flat_map(move |v| arrow(j, v)),
          &|| p().flat_map(move |v| arrow(k, v).flat_map(move |w| arrow(j, w))),
        ],
        &|m, o| {
          let r = ev(m, o);
          let r = bind_model(r, k, m, o);
          bind_model(r, j, m, o)
        },
        true,
      );
    }
  }
}

pub fn p10(ctx: &mut Ctx) {
  let inputs: &'static [Vec<char>] = Box::leak(words(&['a', 'b'], 4).into_boxed_slice());
  law_gen().visit(ctx.pick(4, 5), &mut |t| {
    if !ctx.full() && ctx.mine() {
      laws_of(ctx, t, inputs);
    }
  });
  long(ctx, &laws_of);
  // the same operations at the level of a parse result
  for ok in [true, false] {
    for committed in [true, false] {
      ctx.case(
        || format!("result combinators on success={} committed={}", ok, committed),
        || {
          let mk = || {
            if ok {
              ParseResult::<char, i32>::successful(4, 3)
            } else {
              ParseResult::failed(ParseError::of_custom(1, None, "e".into()), committed.into())
            }
          };
          let obs = |r: &ParseResult<char, i32>| -> Result<(i32, usize), bool> {
            match r {
              ParseResult::Success { value, length } => Ok((*value, *length)),
              ParseResult::Failure { committed_status, .. } => Err(committed_status.is_committed()),
            }
          };
          let base: Result<(i32, usize), bool> = if ok { Ok((4, 3)) } else { Err(committed) };
          let pairs = [
            (obs(&mk()), base),
            (obs(&mk().map(|v, n| (v + 1, n))), base.map(|(v, n)| (v + 1, n))),
            (obs(&mk().map(|v, n| (v, n + 2))), base.map(|(v, n)| (v, n + 2))),
            (obs(&mk().flat_map(|v, n| ParseResult::successful(v * 2, n))), base.map(|(v, n)| (v * 2, n))),
            (obs(&mk().flat_map(|_, _| ParseResult::failed_with_commit(ParseError::of_in_complete()))), base.and(Err(true)).map_err(|e| if ok { true } else { e && committed })),
            (obs(&mk().map_err(|_| ParseError::of_in_complete())), base),
            (obs(&mk().advance_success(5)), base.map(|(v, n)| (v, n + 5))),
          ];
          for (i, (a, b)) in pairs.iter().enumerate() {
            if a != b {
              return Err(format!("operation {}: {:?} instead of {:?}", i, a, b));
            }
          }
          if mk().is_success() != ok || mk().is_failure() == ok || mk().success().is_some() != ok || mk().failure().is_some() == ok || mk().to_result().is_ok() != ok {
            return Err("success/failure queries disagree".into());
          }
          match mk().map_err(|e| ParseError::of_custom(9, Some(Box::new(e.clone())), "w".into())).failure() {
            None if ok => {}
            Some(e) if !ok && e.to_string() == "w at 9, (inner: e at 1)" => {}
            x => return Err(format!("map_err: {:?}", x)),
          }
          Ok(ok as u64)
        },
      );
    }
  }
}

fn same<'a>(ctx: &mut Ctx, name: &dyn Fn() -> String, inputs: &'a [Vec<char>], sides: &[&dyn Fn() -> Pr<'a>]) {
  ctx.steps(inputs.iter().map(|w| (w.len() as u64 + 1) * sides.len() as u64).sum());
  ctx.state(h64(&name()));
  ctx.case(name, || {
    let ps: Vec<Pr> = sides.iter().map(|s| s()).collect();
    let mut fp = 0;
    for w in inputs {
      for off in offsets(w) {
        let rs: Vec<(R, String)> = ps
          .iter()
          .map(|p| {
            let r = p.run(&ParseState::new(w, off));
            (observe(&r), r.failure().map(|e| e.to_string()).unwrap_or_default())
          })
          .collect();
        for i in 1..rs.len() {
          if rs[i] != rs[0] {
            return Err(format!("forms 1 and {} differ on {:?} offset {}: {} [{}] / {} [{}]", i + 1, w.iter().collect::<String>(), off, show_r(&rs[0].0), rs[0].1, show_r(&rs[i].0), rs[i].1));
          }
        }
        fp = h64(&(fp, &rs[0].0));
      }
    }
    Ok(fp)
  });
}

struct Sink;

impl log::Log for Sink {
  fn enabled(&self, _: &log::Metadata) -> bool {
    true
  }
  fn log(&self, r: &log::Record) {
    std::hint::black_box(format!("{}", r.args()));
  }
  fn flush(&self) {}
}

static SINK: Sink = Sink;

/// The same whatever is listening: nobody, or a logger at any level.
fn logged(ctx: &mut Ctx, t: &T, inputs: &'static [Vec<char>]) {
  use log::LevelFilter as L;
  let _ = log::set_logger(&SINK);
  ctx.steps(inputs.iter().map(|w| (w.len() as u64 + 1) * 12).sum());
  ctx.state(h64(&("listening", t)));
  ctx.case(
    || format!("listening: {}", t.show()),
    || {
      let p = || build(t);
      let sides = [p(), p().debug("l"), p().info("l"), p().warn("l"), p().error("l").debug("n")];
      let mut fp = 0;
      for w in inputs {
        let s = ParseState::new(w, w.len() / 2);
        for s in [ParseState::new(w, 0), s] {
          log::set_max_level(L::Off);
          let want = observe(&sides[0].run(&s));
          fp = h64(&(fp, &want));
          for level in [L::Error, L::Warn, L::Info, L::Trace] {
            log::set_max_level(level);
            for (k, side) in sides.iter().enumerate() {
              let got = observe(&side.run(&s));
              if got != want {
                log::set_max_level(L::Off);
                return Err(format!("form {} on {:?} offset {} with a logger at {}: {} / {}", k, w, s.current_offset(), level, show_r(&want), show_r(&got)));
              }
            }
          }
        }
      }
      log::set_max_level(L::Off);
      Ok(fp)
    },
  );
}

fn decorations_of(ctx: &mut Ctx, t: &T, inputs: &'static [Vec<char>]) {
  let p = || build(t);
  let n = |k: &str| format!("{}: {}", k, t.show());
  logged(ctx, t, inputs);
  same(ctx, &|| n("logging"), inputs, &[&p, &|| p().debug("l"), &|| p().info("l"), &|| p().warn("l"), &|| p().error("l"), &|| p().debug("l").info("m").error("n")]);
  same(ctx, &|| n("! / not"), inputs, &[&|| (!p()).map(|_| V::U), &|| OperatorParser::not(p()).map(|_| V::U)]);
  same(ctx, &|| n("lazy / clone"), inputs, &[&p, &|| { let t = t.clone(); lazy(move || build(&t)) }, &|| p().clone()]);
  same(ctx, &|| n("many0"), inputs, &[&|| p().of_many0().map(V::L), &|| p().repeat(0..).map(V::L), &|| p().repeat(..).map(V::L)]);
  same(ctx, &|| n("many1"), inputs, &[&|| p().of_many1().map(V::L), &|| p().repeat(1..).map(V::L)]);
  same(ctx, &|| n("n_m"), inputs, &[&|| p().of_many_n_m(1, 2).map(V::L), &|| p().repeat(1..=2).map(V::L), &|| p().repeat(1..3).map(V::L)]);
  same(ctx, &|| n("count"), inputs, &[&|| p().of_count(2).map(V::L), &|| p().repeat(2..=2).map(V::L), &|| p().repeat(2).map(V::L)]);
  same(ctx, &|| n("discard"), inputs, &[&|| p().discard().map(|_| V::U), &|| p().map(|_| V::U)]);
  same(ctx, &|| n("facade map/bind"), inputs, &[&|| ParserParsers::map(p(), f1), &|| p().map(f1)]);
  same(ctx, &|| n("facade bind"), inputs, &[&|| ParserParsers::flat_map(p(), |v| arrow(2, v)), &|| p().flat_map(|v| arrow(2, v))]);
  // naming: same outcome; the error is wrapped unless it was custom
  ctx.state(h64(&("name", t)));
  ctx.case(
    || n("naming"),
    || {
      let a = p();
      let b = p().name("nm");
      let c = p().name("nm").name("outer");
      let mut fp = 0;
      for w in inputs {
        for off in offsets(w) {
          let s = ParseState::new(w, off);
          let (x, y, z) = (a.run(&s), b.run(&s), c.run(&s));
          if observe(&x) != observe(&y) || observe(&x) != observe(&z) {
            return Err(format!("on {:?} offset {}: {} became {}", w, off, show_r(&observe(&x)), show_r(&observe(&y))));
          }
          if let (Some(e), Some(f)) = (x.failure(), y.failure()) {
            let (e, f) = (e.to_string(), f.to_string());
            if !f.contains(&e) {
              return Err(format!("on {:?} offset {}: error {:?} lost in {:?}", w, off, e, f));
            }
            fp = h64(&(fp, f));
          }
        }
      }
      Ok(fp)
    },
  );
  // entry points
  ctx.case(
    || n("entry points"),
    || {
      let a = p();
      let f = ParserParsers::filter(p(), |v: &V| trueish(v));
      let g = p().with_filter(|v| trueish(v));
      let mut fp = 0;
      for w in inputs {
        let r = observe(&a.run(&ParseState::new(w, 0)));
        let s = observe(&a.parse(w));
        if r != s {
          return Err(format!("parse and run differ on {:?}", w));
        }
        let v: Result<V, String> = a.parse_as_result(w).map_err(|e| e.to_string());
        let u: Result<V, String> = a.parse(w).to_result().map_err(|e| e.to_string());
        let x: Result<V, String> = ParserParsers::parse(&a, w).map_err(|e| e.to_string());
        if u != v || v.is_ok() != r.is_ok() {
          return Err(format!("parse_as_result differs on {:?}", w));
        }
        if x != v {
          return Err(format!("facade parse differs on {:?}: {:?} / {:?}", w, x, v));
        }
        if v.clone().ok() != r.as_ref().ok().map(|x| x.0.clone()) {
          return Err(format!("parse_as_result value differs on {:?}", w));
        }
        for off in offsets(w) {
          let (x, y) = (observe(&f.run(&ParseState::new(w, off))), observe(&g.run(&ParseState::new(w, off))));
          if x != y {
            return Err(format!("facade filter differs on {:?} offset {}: {} / {}", w, off, show_r(&x), show_r(&y)));
          }
        }
        fp = h64(&(fp, r));
      }
      Ok(fp)
    },
  );
}

pub fn p11(ctx: &mut Ctx) {
  let inputs: &'static [Vec<char>] = Box::leak(words(&['a', 'b'], ctx.pick(3, 5)).into_boxed_slice());
  let small = law_gen().up_to(3);
  for a in &small {
    for b in &small {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      let p = || build(a);
      let q = || build(b);
      let n = |k: &str| format!("{}: {} , {}", k, a.show(), b.show());
      same(ctx, &|| n("+"), inputs, &[&|| (p() + q()).map(|(x, y)| V::pair(x, y)), &|| p().and_then(q()).map(|(x, y)| V::pair(x, y))]);
      same(ctx, &|| n("*"), inputs, &[&|| p() * q(), &|| p().skip_left(q())]);
      same(ctx, &|| n("-"), inputs, &[&|| p() - q(), &|| p().skip_right(q())]);
      same(ctx, &|| n("|"), inputs, &[&|| p() | q(), &|| p().or(q())]);
      same(ctx, &|| n("surround"), inputs, &[&|| surround(p(), q(), p()), &|| q().surround(p(), p()), &|| p() * (q() - p()), &|| p().skip_left(q().skip_right(p()))]);
      same(ctx, &|| n("many0_sep"), inputs, &[&|| p().of_many0_sep(q()).map(V::L), &|| p().of_rep_sep(0.., Some(q())).map(V::L), &|| p().of_rep_sep(.., Some(q())).map(V::L)]);
      same(ctx, &|| n("many1_sep"), inputs, &[&|| p().of_many1_sep(q()).map(V::L), &|| p().of_rep_sep(1.., Some(q())).map(V::L)]);
      same(ctx, &|| n("many_n_m_sep"), inputs, &[&|| p().of_many_n_m_sep(1, 2, q()).map(V::L), &|| p().of_rep_sep(1..=2, Some(q())).map(V::L), &|| p().of_rep_sep(1..3, Some(q())).map(V::L)]);
      same(ctx, &|| n("count_sep"), inputs, &[&|| p().of_count_sep(2, q()).map(V::L), &|| p().of_rep_sep(2..=2, Some(q())).map(V::L), &|| p().of_rep_sep(2, Some(q())).map(V::L)]);
      same(ctx, &|| n("pair projections"), inputs, &[&|| (p() + q()).map(|(_, y)| y), &|| p() * q()]);
      same(ctx, &|| n("pair projections (left)"), inputs, &[&|| (p() + q()).map(|(x, _)| x), &|| p() - q()]);
    }
  }
  law_gen().visit(ctx.pick(4, 5), &mut |t| {
    if !ctx.full() && ctx.mine() {
      decorations_of(ctx, t, inputs);
    }
  });
  long(ctx, &decorations_of);
  // constructor aliases
  for w in inputs {
    for off in 0..=w.len() {
      ctx.case(
        || format!("constructor aliases on {:?} offset {}", w, off),
        || {
          let s = ParseState::new(w, off);
          let o = |p: Pr<'static>| observe(&p.run(&ParseState::new(unsafe { std::slice::from_raw_parts(w.as_ptr(), w.len()) }, off)));
          let e = || ParseError::of_custom(0, None, "e".into());
          let pairs: Vec<(&str, R, R)> = vec![
            ("successful", o(successful(V::N(3))), Ok((V::N(3), 0))),
            ("successful_lazy", o(successful_lazy(|| V::N(3))), Ok((V::N(3), 0))),
            ("pure", o(<Pr as ParserPure>::pure(|| V::N(3))), Ok((V::N(3), 0))),
            ("failed committed", o(failed(e(), CommittedStatus::Committed)), Err(true)),
            ("failed uncommitted", o(failed(e(), CommittedStatus::Uncommitted)), Err(false)),
            ("failed_with_commit", o(failed_with_commit(e())), Err(true)),
            ("failed_with_uncommit", o(failed_with_uncommit(e())), Err(false)),
            ("failed_lazy committed", o(failed_lazy(move || (ParseError::of_in_complete(), CommittedStatus::Committed))), Err(true)),
            ("failed_lazy uncommitted", o(failed_lazy(move || (ParseError::of_in_complete(), CommittedStatus::Uncommitted))), Err(false)),
            ("begin", o(begin().map(|_| V::U)), Ok((V::U, 0))),
            ("empty", o(empty().map(|_| V::U)), Ok((V::U, 0))),
            ("unit", o(unit().map(|_| V::U)), Ok((V::U, 0))),
            ("facade successful", o(ParserParsers::successful(V::N(3))), Ok((V::N(3), 0))),
            ("facade successful_lazy", o(ParserParsers::successful_lazy(|| V::N(3))), Ok((V::N(3), 0))),
            ("facade failed", o(ParserParsers::failed(e(), CommittedStatus::Committed)), Err(true)),
            ("facade failed_lazy", o(ParserParsers::failed_lazy(move || (ParseError::of_in_complete(), CommittedStatus::Uncommitted))), Err(false)),
          ];
          for (n, a, b) in pairs {
            if a != b {
              return Err(format!("{}: {} instead of {}", n, show_r(&a), show_r(&b)));
            }
          }
          if s.current_offset() != off || s.input() != &w[off..] || s.last_offset() != off.checked_sub(1) {
            return Err("parse state accessors".into());
          }
          for k in 0..=(w.len() - off) {
            let t = s.advance_by(k);
            if t.current_offset() != off + k || t.input() != &w[off + k..] || s.slice_with_len(k) != &w[off..off + k] {
              return Err(format!("parse state after advancing {}", k));
            }
          }
          Ok(off as u64)
        },
      );
    }
  }
}
