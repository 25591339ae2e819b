//! T02 (what programs compute) and T03 (calls and scopes).

use crate::lang::*;
use crate::run::*;
use mc_core::{h64, Ctx};

/// Runs the tree, and the text of it too where asked.
fn check(ctx: &mut Ctx, p: &[D], through_text: bool) {
  let want = match expected(p) {
    Some(w) => w,
    None => {
      ctx.note("programs_without_a_defined_meaning_skipped", 1);
      return;
    }
  };
  let text = toks(&fit(p)).join(" ");
  ctx.state(h64(&text));
  ctx.steps(1 + want.printed.len() as u64);
  ctx.case(|| format!("run {}", text), || compare(&want, program(p)));
  if through_text {
    ctx.case(
      || format!("parse and run {}", text),
      || {
        let tree = parse(&text)?.map_err(|e| format!("rejected: {}", e))?;
        compare(&want, tree)
      },
    );
  }
}

fn main_of(s: Vec<S>) -> D {
  func("main", &[], s)
}

/// Every sequence of up to `max` statements of the catalogue, the last units of work per prefix.
fn sequences(ctx: &mut Ctx, cat: &[S], max: usize, f: &mut dyn FnMut(&mut Ctx, Vec<S>)) {
  for len in 1..=max {
    for outer in 0..cat.len().pow(len as u32 - 1) {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let mut o = outer;
      let mut pre = vec![];
      for _ in 0..len - 1 {
        pre.push(cat[o % cat.len()].clone());
        o /= cat.len();
      }
      for last in cat {
        let mut s = pre.clone();
        s.push(last.clone());
        f(ctx, s);
      }
    }
  }
}

fn every_expression(ctx: &mut Ctx) {
  let ints = [i(0), i(1), i(2), i(3), i(7), i(-1), i(-3), i(10), i(1 << 40), i(i64::MAX), i(i64::MIN)];
  let bools = [b(true), b(false)];
  // every operator on every pair of operands
  let all: Vec<X> = ints.iter().chain(&bools).cloned().collect();
  let mut level: Vec<X> = vec![];
  for o in OPS {
    for l in &all {
      for r in &all {
        level.push(bin(o, l.clone(), r.clone()));
      }
    }
  }
  for (k, x) in level.iter().enumerate() {
    if k % 16 == 0 {
      ctx.mine();
    }
    if ctx.last_mine() {
      check(ctx, &[main_of(vec![S::Ex(x.clone())])], k % 7 == 0);
      check(ctx, &[main_of(vec![set("a", x.clone()), S::Print(paren(v("a")))])], false);
    }
  }
  // one more operator on either side
  let small = [i(2), i(3), i(5), b(true), b(false)];
  let mut inner = vec![];
  for o in OPS {
    for l in &small {
      for r in &small {
        inner.push(bin(o, l.clone(), r.clone()));
      }
    }
  }
  for x in &inner {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    for o in OPS {
      for y in &small {
        for x in [bin(o, x.clone(), y.clone()), bin(o, y.clone(), x.clone()), bin(o, paren(x.clone()), y.clone())] {
          check(ctx, &[main_of(vec![S::Ex(x)])], false);
        }
      }
      if ctx.thorough() {
        for y in &inner {
          check(ctx, &[main_of(vec![S::Ex(bin(o, x.clone(), y.clone()))])], false);
        }
      }
    }
  }
}

fn catalogue() -> Vec<S> {
  let a = || v("a");
  let c = || v("b");
  vec![
    set("a", i(1)),
    set("a", bin(Add, a(), i(2))),
    set("b", bin(Mul, a(), i(3))),
    set("b", bin(Sub, c(), a())),
    set("a", c()),
    S::Print(a()),
    S::Print(bin(Mod, bin(Add, a(), c()), i(4))),
    S::Ex(X::Arr(vec![a(), c(), X::Arr(vec![])])),
    S::Ex(st("end")),
    iff(bin(Lt, a(), c()), set("a", i(10)), Some(set("b", i(20)))),
    iff(bin(Eq, a(), i(1)), S::Block(vec![set("b", i(5)), S::Print(st("one"))]), None),
    iff(bin(And, bin(Gt, a(), i(2)), bin(Le, a(), i(12))), S::Ex(i(100)), Some(S::Ex(i(200)))),
    iff(bin(Or, bin(Ne, a(), i(3)), bin(Ge, c(), i(9))), S::Ex(X::Bool(true)), Some(iff(bin(Eq, c(), i(3)), S::Ex(i(7)), Some(S::Ex(i(8)))))),
    whil(bin(Lt, a(), i(5)), set("a", bin(Add, a(), i(2)))),
    whil(bin(Gt, c(), i(0)), S::Block(vec![S::Print(c()), set("b", bin(Sub, c(), i(2)))])),
    fo("i", i(0), i(3), set("a", bin(Add, a(), v("i")))),
    fo("i", a(), i(4), S::Print(v("i"))),
    fo("i", i(1), a(), S::Block(vec![set("b", v("i")), fo("j", i(0), v("i"), S::Print(bin(Add, bin(Mul, v("i"), i(10)), v("j"))))])),
    S::Block(vec![set("a", bin(Add, a(), i(1))), S::Ex(a())]),
    S::Block(vec![S::Block(vec![set("c", a())]), S::Print(v("c"))]),
    S::Block(vec![]),
    set("flag", bin(Lt, a(), c())),
    iff(v("flag"), S::Print(st("yes")), Some(S::Print(st("no")))),
    S::Ex(mixed()),
  ]
}

fn mixed() -> X {
  bin(Sub, bin(Mul, v("a"), i(2)), bin(Div, v("b"), i(2)))
}

pub fn t02(ctx: &mut Ctx) {
  crate::large::t02(ctx);
  every_expression(ctx);
  let cat = catalogue();
  let max = ctx.pick(3, 4);
  sequences(ctx, &cat, max, &mut |ctx, s| {
    let n = s.len();
    let mut with = vec![set("a", i(1)), set("b", i(3))];
    with.extend(s.clone());
    check(ctx, &[main_of(with.clone())], n < 3);
    if n < 4 {
      // the same variables as globals, and the value of every statement printed
      let p = vec![D::Global("b".into(), i(4)), D::Global("a".into(), bin(Sub, v("b"), i(1))), main_of(s.clone())];
      check(ctx, &p, n < 2);
      with.extend([S::Print(v("a")), S::Print(v("b"))]);
      check(ctx, &[main_of(with)], false);
    }
  });
  // control structures around every pair of statements
  let max = ctx.pick(2, 3);
  sequences(ctx, &cat, max, &mut |ctx, s| {
    let body = S::Block(s.clone());
    let shapes: Vec<Vec<S>> = vec![
      vec![fo("k", i(0), i(2), body.clone()), S::Ex(v("a"))],
      vec![set("k", i(0)), whil(bin(Lt, v("k"), i(2)), S::Block(vec![set("k", bin(Add, v("k"), i(1))), body.clone()])), S::Ex(v("b"))],
      vec![iff(bin(Lt, v("a"), v("b")), body.clone(), Some(S::Block(vec![]))), S::Print(v("a"))],
      vec![iff(bin(Gt, v("a"), v("b")), S::Ex(i(1)), Some(body.clone()))],
      vec![fo("k", i(5), i(5), body.clone()), fo("k", i(5), i(3), body.clone()), whil(b(false), body.clone()), S::Print(v("a"))],
    ];
    for sh in shapes {
      let mut all = vec![set("a", i(1)), set("b", i(3))];
      all.extend(sh);
      check(ctx, &[main_of(all)], s.len() == 1);
    }
  });
  // every condition of a loop, as long as the loop ends
  for o in [Lt, Le, Gt, Ge, Eq, Ne] {
    for start in -2..=3i64 {
      if !ctx.mine() {
        continue;
      }
      for lim in -2..=3i64 {
        for step in [1i64, -1, 2, -2, 3] {
          let holds = |k: i64| match o {
            Lt => k < lim,
            Le => k <= lim,
            Gt => k > lim,
            Ge => k >= lim,
            Eq => k == lim,
            _ => k != lim,
          };
          if (0..20).all(|n| holds(start + n * step)) {
            continue;
          }
          let turn = |c: X| whil(c, S::Block(vec![S::Print(v("i")), set("i", bin(Add, v("i"), i(step)))]));
          let cond = || bin(o, v("i"), v("l"));
          let conds = [cond(), bin(o, v("i"), i(lim)), bin(And, paren(cond()), b(true)), bin(Or, b(false), paren(cond())), bin(And, paren(cond()), paren(bin(Lt, v("i"), i(50)))), bin(Eq, paren(cond()), b(true)), bin(Ne, b(false), paren(cond()))];
          for c in conds {
            check(ctx, &[main_of(vec![set("i", i(start)), set("l", i(lim)), turn(c.clone()), S::Ex(v("i"))])], start >= 0 && lim >= 0 && step == 1);
            // the body as the one statement, and a condition kept in a variable
            check(ctx, &[main_of(vec![set("i", i(start)), set("l", i(lim)), whil(c.clone(), set("i", bin(Add, v("i"), i(step)))), S::Ex(v("i"))])], false);
            check(
              ctx,
              &[main_of(vec![set("i", i(start)), set("l", i(lim)), set("go", c.clone()), whil(v("go"), S::Block(vec![S::Print(v("i")), set("i", bin(Add, v("i"), i(step))), set("go", c)])), S::Ex(v("i"))])],
              false,
            );
          }
        }
      }
    }
  }
  // every bound of a counting loop
  for lo in -3..=6i64 {
    for hi in -3..=6i64 {
      if !ctx.mine() {
        continue;
      }
      for (l, h) in [(i(lo), i(hi)), (bin(Sub, i(lo), i(0)), bin(Add, i(hi), i(0))), (v("l"), v("h"))] {
        let s = vec![set("l", i(lo)), set("h", i(hi)), set("n", i(0)), fo("i", l, h, S::Block(vec![S::Print(v("i")), set("n", bin(Add, v("n"), i(1)))])), S::Ex(v("n"))];
        check(ctx, &[main_of(s)], lo >= 0 && hi >= 0);
      }
    }
  }
}

// ------------------------------------------------------------------ T03

/// Statements of a function with parameters p and q (one, with parameter p, when q is not bound).
fn body_parts(two: bool) -> Vec<S> {
  let p = || v("p");
  let mut out = vec![
    S::Ex(p()),
    set("p", bin(Add, p(), i(1))),
    S::Print(p()),
    set("t", bin(Mul, p(), i(2))),
    S::Ex(v("t")),
    set("g", bin(Add, v("g"), p())),
    S::Ex(v("g")),
    set("x", p()),
    S::Ex(bin(Add, v("x"), p())),
    iff(bin(Gt, p(), i(0)), S::Ex(call("h", vec![bin(Sub, p(), i(1))])), Some(S::Ex(i(0)))),
    set("t", call("h", vec![i(0)])),
  ];
  if two {
    let q = || v("q");
    out.extend([
      S::Ex(bin(Sub, p(), q())),
      set("q", bin(Add, q(), p())),
      S::Print(q()),
      iff(bin(Gt, p(), i(0)), S::Block(vec![set("t", call("f", vec![bin(Sub, p(), i(1)), bin(Mul, q(), i(2))])), S::Print(q()), S::Ex(bin(Add, v("t"), p()))]), Some(S::Ex(q()))),
      iff(bin(Gt, p(), i(0)), S::Ex(lcall("f", vec![("q", p()), ("p", bin(Sub, p(), i(1)))])), Some(S::Ex(q()))),
      S::Ex(call("h", vec![q()])),
    ]);
  }
  out
}

fn main_parts() -> Vec<S> {
  vec![
    S::Ex(call("f", vec![i(2), i(5)])),
    S::Ex(call("f", vec![v("x"), v("g")])),
    S::Ex(lcall("f", vec![("p", i(1)), ("q", i(7))])),
    S::Ex(lcall("f", vec![("q", v("x")), ("p", i(2))])),
    set("x", call("f", vec![i(1), v("x")])),
    set("p", i(50)),
    set("t", call("f", vec![call("h", vec![i(3)]), call("h", vec![i(4)])])),
    S::Print(v("x")),
    S::Print(v("g")),
    S::Ex(bin(Add, v("x"), v("p"))),
    S::Ex(v("t")),
    set("g", i(100)),
    S::Print(lcall("f", vec![("q", call("tell", vec![i(8)])), ("p", call("tell", vec![i(9)]))])),
    S::Print(call("f", vec![call("tell", vec![i(3)]), bin(Sub, call("tell", vec![i(2)]), call("tell", vec![i(1)]))])),
    fo("i", i(0), i(2), S::Ex(call("f", vec![v("i"), v("x")]))),
  ]
}

fn bodies(parts: &[S], max: usize) -> Vec<Vec<S>> {
  let mut out: Vec<Vec<S>> = vec![];
  let mut level: Vec<Vec<S>> = vec![vec![]];
  for _ in 0..max {
    level = level.iter().flat_map(|l| parts.iter().map(move |s| l.iter().cloned().chain([s.clone()]).collect())).collect();
    out.extend(level.clone());
  }
  out
}

pub fn t03(ctx: &mut Ctx) {
  crate::large::t03(ctx);
  let tell = || func("tell", &["n"], vec![S::Print(X::Arr(vec![st("tell"), v("n")])), S::Ex(v("n"))]);
  let f_bodies = bodies(&body_parts(true), ctx.pick(2, 3));
  let h_bodies: Vec<Vec<S>> = vec![
    vec![S::Ex(bin(Mul, v("p"), i(10)))],
    vec![set("p", bin(Add, v("p"), i(1))), set("t", i(77)), S::Ex(v("p"))],
    vec![set("g", bin(Add, v("g"), i(1))), iff(bin(Gt, v("p"), i(0)), S::Ex(bin(Add, call("h", vec![bin(Sub, v("p"), i(1))]), v("p"))), Some(S::Ex(v("g"))))],
    vec![set("t", v("p")), set("x", i(66)), iff(bin(Gt, v("p"), i(0)), S::Ex(call("h", vec![bin(Sub, v("p"), i(1))])), None), S::Print(v("t")), S::Ex(bin(Add, v("t"), v("x")))],
  ];
  let mains = bodies(&main_parts(), ctx.pick(2, 2));
  for (k, fb) in f_bodies.iter().enumerate() {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    for (hk, hb) in h_bodies.iter().enumerate() {
      for (m, mb) in mains.iter().enumerate() {
        if fb.len() == 3 && (m + k) % 3 != 0 {
          continue;
        }
        let mut body = vec![set("x", i(3))];
        body.extend(mb.clone());
        let p = vec![D::Global("g".into(), i(1)), func("h", &["p"], hb.clone()), func("f", &["p", "q"], fb.clone()), tell(), main_of(body)];
        check(ctx, &p, fb.len() == 1 && mb.len() == 1 && hk == m % 4);
      }
    }
  }
  // functions with one parameter calling themselves and each other
  let ones = bodies(&body_parts(false), ctx.pick(2, 3));
  for fb in &ones {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    for hb in ones.iter().filter(|b| b.len() < 3) {
      for arg in [0, 2] {
        let h = func("h", &["p"], hb.clone());
        let f = func("f", &["p"], fb.clone());
        let m = main_of(vec![set("p", i(40)), set("t", call("f", vec![i(arg)])), S::Print(v("p")), S::Print(v("g")), S::Ex(v("t"))]);
        check(ctx, &[D::Global("g".into(), i(1)), f, h, m], false);
      }
    }
  }
  // every number of parameters, every order of labels
  for n in 0..=4usize {
    let names: Vec<String> = (0..n).map(|k| format!("p{}", k)).collect();
    let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let all = X::Arr(names.iter().map(|n| v(n)).collect());
    let f = func("f", &refs, vec![S::Ex(all)]);
    let told = |k: usize| call("tell", vec![i(k as i64)]);
    if ctx.mine() {
      check(ctx, &[f.clone(), tell(), main_of(vec![S::Print(call("f", (0..n).map(told).collect())), S::Ex(call("f", (0..n).map(|k| i(k as i64 * 3)).collect()))])], true);
    }
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    for k in 0..n {
      orders = orders.iter().flat_map(|o| (0..=o.len()).map(move |at| { let mut o = o.clone(); o.insert(at, k); o })).collect();
    }
    for o in orders {
      if n > 0 && ctx.mine() {
        let args: Vec<(String, X)> = o.iter().map(|k| (names[*k].clone(), told(*k))).collect();
        check(ctx, &[f.clone(), tell(), main_of(vec![S::Ex(X::LCall("f".into(), args))])], true);
      }
    }
  }
  // every row of arguments out of a few expressions, equal ones among them: each is evaluated, once
  let tick = func("tick", &[], vec![set("g", bin(Add, v("g"), i(1))), S::Ex(v("g"))]);
  let add = func("add", &["n"], vec![set("g", bin(Add, v("g"), v("n"))), S::Ex(bin(Mul, v("g"), i(10)))]);
  let exprs = [call("tick", vec![]), v("g"), v("x"), call("add", vec![v("x")]), call("add", vec![call("tick", vec![])]), lcall("add", vec![("n", i(2))])];
  for n in 1..=ctx.pick(4usize, 5) {
    let names: Vec<String> = (0..n).map(|k| format!("p{}", k)).collect();
    let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let f = func("f", &refs, vec![set("g", bin(Add, v("g"), i(100))), S::Ex(X::Arr(names.iter().map(|n| v(n)).collect()))]);
    for k in 0..exprs.len().pow(n as u32) {
      if k % 16 == 0 {
        ctx.mine();
      }
      if !ctx.last_mine() || ctx.full() {
        continue;
      }
      let args: Vec<X> = (0..n).map(|j| exprs[k / exprs.len().pow(j as u32) % exprs.len()].clone()).collect();
      let mut labels: Vec<(String, X)> = names.iter().cloned().zip(args.iter().cloned()).collect();
      labels.rotate_left(n / 2);
      let forms = [X::Call("f".into(), args.clone()), X::LCall("f".into(), labels.clone()), X::LCall("f".into(), labels.into_iter().rev().collect()), X::Arr(args)];
      for form in forms {
        let m = main_of(vec![set("x", i(3)), set("t", form), S::Print(v("g")), S::Ex(v("t"))]);
        check(ctx, &[D::Global("g".into(), i(0)), tick.clone(), add.clone(), f.clone(), m], false);
      }
    }
  }
  // globals: each initialised once, in order, seen and changed by every function
  let inits = [i(1), bin(Add, v("g0"), i(2)), call("tell", vec![i(5)]), X::Arr(vec![v("g0")]), paren(bin(Mul, v("g0"), i(3)))];
  for x in &inits {
    for y in &inits {
      if !ctx.mine() {
        continue;
      }
      let get = func("get", &[], vec![S::Ex(X::Arr(vec![v("g0"), v("g1"), v("g2")]))]);
      let put = func("put", &["g1"], vec![set("g0", v("g1")), set("g1", i(0)), set("fresh", i(1)), S::Ex(v("g0"))]);
      let m = main_of(vec![S::Print(call("get", vec![])), S::Print(call("put", vec![i(9)])), S::Print(call("get", vec![])), set("g2", i(6)), set("g0", i(8)), S::Ex(call("get", vec![]))]);
      check(ctx, &[tell(), D::Global("g0".into(), i(4)), D::Global("g1".into(), x.clone()), D::Global("g2".into(), y.clone()), get, put, m], true);
    }
  }
}
