//! Long and deep programs: one family per construct, every size up to a bound and around powers of two.

use crate::lang::*;
use crate::run::*;
use crate::syntax::read;
use mc_core::Ctx;

pub fn sizes(ctx: &Ctx, dense: usize, top: usize) -> Vec<usize> {
  let mut v: Vec<usize> = (1..=dense).collect();
  v.extend([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257]);
  if ctx.thorough() {
    v.extend([300, 511, 512, 513]);
  }
  v.retain(|n| *n <= top);
  v.sort();
  v.dedup();
  v
}

/// The program's text reads as the program, and the running text does what the program means.
fn both(ctx: &mut Ctx, p: &[D]) {
  let want = expected_long(p).expect("a program with a meaning");
  let t = toks(&fit(p));
  ctx.steps(t.len() as u64);
  let text = t.join(" ");
  read(ctx, &text, &fit(p));
  ctx.case(
    || format!("parse and run {}", text),
    || compare(&want, parse(&text)?.map_err(|e| format!("rejected: {}", e))?),
  );
}

/// The same without going through text.
fn run(ctx: &mut Ctx, p: &[D]) {
  let want = expected_long(p).expect("a program with a meaning");
  let text = toks(&fit(p)).join(" ");
  ctx.state(mc_core::h64(&text));
  ctx.steps(want.printed.len() as u64 + 1);
  ctx.case(|| format!("run {}", text), || compare(&want, program(p)));
}

fn text(ctx: &mut Ctx, p: &[D], gap: &'static str) {
  let t = toks(p);
  ctx.steps(t.len() as u64);
  read(ctx, &join(&t, &|_| gap), p);
}

fn main_of(s: Vec<S>) -> D {
  func("main", &[], s)
}

fn n_of(k: usize) -> X {
  i(k as i64)
}

pub fn t01(ctx: &mut Ctx) {
  let reps = [Mul, Div, Mod, Add, Sub, And, Or, Lt, Eq];
  for n in sizes(ctx, 20, 300) {
    for (k, first) in reps.iter().enumerate() {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      for (j, second) in reps.iter().enumerate() {
        // first, with one second in front, in the middle, at the end; and the two by turns
        let forms: Vec<Vec<Op>> = (0..4)
          .map(|f| {
            (0..n)
              .map(|at| match f {
                0 if at == 0 => *second,
                1 if at == n / 2 => *second,
                2 if at == n - 1 => *second,
                3 if at % 2 == 1 => *second,
                _ => *first,
              })
              .collect()
          })
          .collect();
        for (f, ops) in forms.into_iter().enumerate() {
          if n > 20 && (f + j + k + n) % 4 != 0 {
            continue;
          }
          let xs: Vec<X> = (0..=n).map(|k| if k % 3 == 1 { v("a") } else { n_of(k) }).collect();
          text(ctx, &[D::Global("g".into(), group(&xs, &ops))], if (j + k) % 2 == 0 { " " } else { "" });
        }
      }
    }
  }
  // deep groups, on either side and in the middle
  for n in sizes(ctx, 24, ctx.pick(33, 65)) {
    for form in 0..6 {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let mut x = n_of(1);
      for k in 0..n {
        let o = reps[k % reps.len()];
        x = match form {
          0 => paren(x),
          1 => paren(bin(o, x, n_of(k))),
          2 => paren(group(&[n_of(k), x], &[o])),
          3 => X::Arr(vec![x, n_of(k)]),
          4 => call("f", vec![n_of(k), x]),
          _ => lcall("f", vec![("m", x), ("n", n_of(k))]),
        };
      }
      text(ctx, &[D::Global("g".into(), x.clone())], " ");
      text(ctx, &[main_of(vec![S::Ex(x)])], "");
    }
  }
  // lists of every length
  for n in sizes(ctx, 20, 300) {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    let xs: Vec<X> = (0..n).map(|k| if k % 4 == 3 { bin(Sub, v("a"), n_of(k)) } else { n_of(k) }).collect();
    let labels: Vec<String> = (0..n).map(|k| format!("p{}", k)).collect();
    let labelled = labels.iter().cloned().zip(xs.iter().cloned()).collect();
    for x in [X::Arr(xs.clone()), call("f", xs), X::LCall("f".into(), labelled)] {
      for gap in ["", " "] {
        text(ctx, &[D::Global("g".into(), x.clone())], gap);
      }
    }
  }
}

pub fn t02(ctx: &mut Ctx) {
  for n in sizes(ctx, 40, 600) {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    let top = n_of(n);
    let up = || set("a", bin(Add, v("a"), i(1)));
    // loops of n turns, and loops in loops
    both(ctx, &[main_of(vec![set("a", i(0)), fo("i", i(0), top.clone(), up()), S::Ex(v("a"))])]);
    both(ctx, &[main_of(vec![set("a", i(0)), whil(bin(Lt, v("a"), top.clone()), S::Block(vec![up(), S::Print(v("a"))])), S::Ex(v("a"))])]);
    run(ctx, &[main_of(vec![set("a", i(0)), fo("i", i(-3), top.clone(), S::Block(vec![up(), iff(bin(Eq, bin(Mod, v("a"), i(16)), i(0)), S::Print(v("i")), None)])), S::Ex(v("a"))])]);
    if n <= 40 {
      run(ctx, &[main_of(vec![set("a", i(0)), fo("i", i(0), top.clone(), fo("j", v("i"), top.clone(), up())), S::Ex(v("a"))])]);
    }
    // n statements, n branches
    let many: Vec<S> = (0..n).map(|k| set(["a", "b"][k % 2], bin([Add, Sub, Mul][k % 3], v(["b", "a"][k % 2]), i([1, 1, -1][k % 3])))).collect();
    let mut s = vec![set("a", i(3)), set("b", i(4))];
    s.extend(many.clone());
    s.extend([S::Print(v("a")), S::Ex(v("b"))]);
    both(ctx, &[main_of(s)]);
    both(ctx, &[main_of(vec![set("a", i(3)), set("b", i(4)), S::Block(many), S::Print(v("a")), S::Ex(v("b"))])]);
    both(ctx, &[main_of((0..n).map(|k| S::Print(n_of(k))).collect())]);
    // n variables
    let mut s: Vec<S> = (0..n).map(|k| set(&format!("v{}", k), n_of(k))).collect();
    s.extend((0..n).map(|k| S::Print(v(&format!("v{}", k)))));
    both(ctx, &[main_of(s)]);
    // n operands
    for o in [Add, Sub] {
      let x = (1..=n).fold(i(0), |x, k| bin(o, x, n_of(k)));
      both(ctx, &[main_of(vec![S::Ex(x)])]);
    }
    let x = (1..=n).fold(b(true), |x, k| bin([And, Or][k % 2], x, b(k % 3 != 0)));
    both(ctx, &[main_of(vec![S::Ex(x)])]);
    both(ctx, &[main_of(vec![set("a", i(5)), S::Ex(X::Arr((0..n).map(|k| bin(Add, v("a"), n_of(k))).collect()))])]);
    // long strings
    both(ctx, &[main_of(vec![S::Print(st(&"x y".repeat(n))), S::Ex(st(&"é".repeat(n)))])]);
  }
  // loops of very many turns
  for n in [1000usize, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 32_767, 32_768, 65_535, 65_536, 65_537, 100_000] {
    for form in 0..4 {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let up = || set("a", bin(Add, v("a"), i(1)));
      let top = n_of(n);
      let body = match form {
        0 => vec![set("a", i(0)), fo("i", i(0), top.clone(), up()), S::Ex(v("a"))],
        1 => vec![set("a", i(0)), whil(bin(Lt, v("a"), top.clone()), up()), S::Ex(v("a"))],
        2 => vec![set("a", i(0)), fo("i", i(1), top.clone(), S::Block(vec![set("a", bin(Add, v("a"), v("i")))])), S::Print(v("a")), S::Ex(v("a"))],
        _ => vec![set("a", i(0)), set("b", b(true)), whil(v("b"), S::Block(vec![up(), set("b", bin(Lt, v("a"), top.clone()))])), S::Ex(v("a"))],
      };
      run(ctx, &[main_of(body)]);
    }
  }
  // deep nesting
  for n in sizes(ctx, 12, ctx.pick(12, 24)) {
    for form in 0..4 {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      for at in 0..=n {
        let mut s = S::Print(v("a"));
        for k in 0..n {
          s = match form {
            0 => S::Block(vec![set("a", bin(Add, v("a"), i(1))), s]),
            1 => iff(if k == at { b(false) } else { bin(Ge, v("a"), i(0)) }, s, Some(S::Print(n_of(k)))),
            2 => iff(if k == at { b(true) } else { bin(Lt, v("a"), i(0)) }, S::Print(n_of(k)), Some(s)),
            _ => fo(&format!("i{}", k), i(0), i(if k == at { 2 } else { 1 }), s),
          };
        }
        both(ctx, &[main_of(vec![set("a", i(0)), s, S::Ex(v("a"))])]);
      }
    }
  }
}

pub fn t03(ctx: &mut Ctx) {
  for n in sizes(ctx, 40, ctx.pick(129, 257)) {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    let p = || v("p");
    let less = || bin(Sub, p(), i(1));
    let more = |t: S, e: S| iff(bin(Gt, p(), i(0)), t, Some(e));
    // recursion n deep: the callers' variables are theirs when the callee is back
    let f = func("f", &["p"], vec![set("t", p()), more(set("r", call("f", vec![less()])), set("r", i(0))), set("g", bin(Add, v("g"), v("t"))), S::Ex(bin(Add, v("r"), v("t")))]);
    both(ctx, &[D::Global("g".into(), i(0)), f, main_of(vec![set("t", i(7)), set("x", call("f", vec![n_of(n)])), S::Print(v("t")), S::Print(v("g")), S::Ex(v("x"))])]);
    // two functions by turns
    let f = func("f", &["p"], vec![more(S::Ex(call("h", vec![less()])), S::Ex(b(true)))]);
    let h = func("h", &["p"], vec![more(S::Ex(lcall("f", vec![("p", less())])), S::Ex(b(false)))]);
    both(ctx, &[f, h, main_of(vec![S::Ex(call("f", vec![n_of(n)]))])]);
    // n functions, each calling the one before
    let mut fs = vec![func("f0", &["p"], vec![S::Ex(bin(Mul, p(), i(2)))])];
    for k in 1..n {
      fs.push(func(&format!("f{}", k), &["p"], vec![set("p", bin(Add, p(), i(1))), set("t", call(&format!("f{}", k - 1), vec![p()])), S::Ex(bin(Sub, v("t"), p()))]));
    }
    fs.push(main_of(vec![S::Ex(call(&format!("f{}", n - 1), vec![i(5)]))]));
    both(ctx, &fs);
    fs.reverse();
    both(ctx, &fs);
    // n calls one after another
    let f = func("f", &["p"], vec![set("g", bin(Add, v("g"), p())), set("t", v("g")), S::Ex(v("t"))]);
    let mut s: Vec<S> = (0..n).map(|k| set("t", call("f", vec![n_of(k)]))).collect();
    s.extend([S::Print(v("t")), S::Ex(v("g"))]);
    both(ctx, &[D::Global("g".into(), i(0)), f.clone(), main_of(s)]);
    both(ctx, &[D::Global("g".into(), i(0)), f, main_of(vec![fo("i", i(0), n_of(n), set("t", call("f", vec![v("i")]))), S::Ex(v("t"))])]);
    // n parameters, in order and by label from the last to the first
    let names: Vec<String> = (0..n).map(|k| format!("p{}", k)).collect();
    let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let f = func("f", &refs, vec![S::Ex(X::Arr(names.iter().map(|n| v(n)).collect()))]);
    let labelled = |back: bool| {
      let mut a: Vec<(String, X)> = names.iter().cloned().zip((0..n).map(|k| n_of(k * 3))).collect();
      if back {
        a.reverse();
      }
      X::LCall("f".into(), a)
    };
    both(ctx, &[f.clone(), main_of(vec![S::Ex(call("f", (0..n).map(n_of).collect()))])]);
    both(ctx, &[f.clone(), main_of(vec![S::Ex(labelled(false))])]);
    both(ctx, &[f, main_of(vec![S::Ex(labelled(true))])]);
    // n globals, each made of the one before
    let mut ds = vec![D::Global("g0".into(), i(1))];
    for k in 1..n {
      ds.push(D::Global(format!("g{}", k), bin(Add, v(&format!("g{}", k - 1)), n_of(k))));
    }
    ds.push(func("f", &[], (0..n).map(|k| S::Print(v(&format!("g{}", k)))).collect()));
    ds.push(main_of(vec![set(&format!("g{}", n - 1), i(-1)), S::Ex(call("f", vec![]))]));
    both(ctx, &ds);
  }
}

pub fn t04(ctx: &mut Ctx) {
  const LONG: [&str; 3] = [" ", "\n", "\t "];
  for n in sizes(ctx, 30, 300) {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    let one = |k: usize| match k % 5 {
      0 => set("a", n_of(k)),
      1 => S::Print(v("a")),
      2 => S::Block(vec![]),
      3 => iff(v("a"), set("b", n_of(k)), None),
      _ => S::Ex(call("f", vec![st("x;")])),
    };
    let body: Vec<S> = (0..n).map(one).collect();
    for gap in ["", " ", "\n"] {
      text(ctx, &[main_of(body.clone())], gap);
      text(ctx, &[main_of(vec![whil(v("a"), S::Block(body.clone()))])], gap);
      text(ctx, &(0..n).map(|k| D::Global(format!("g{}", k), n_of(k))).collect::<Vec<_>>(), gap);
      text(ctx, &(0..n).map(|k| if k % 3 == 0 { D::Global(format!("g{}", k), b(true)) } else { func(&format!("f{}", k), &["a", "b"][..k % 3], vec![S::Ex(v("a"))]) }).collect::<Vec<_>>(), gap);
      let names: Vec<String> = (0..n).map(|k| format!("p{}", k)).collect();
      text(ctx, &[func("f", &names.iter().map(|n| n.as_str()).collect::<Vec<_>>(), vec![])], gap);
    }
    // names and literals
    for unit in ["x", "_", "if", "aB_9"] {
      let name = format!("n{}", unit.repeat(n));
      text(ctx, &[D::Global(name.clone(), v(&name)), func(&name, &[&name], vec![set(&name, i(1)), fo(&name, i(0), i(1), S::Ex(call(&name, vec![])))])], " ");
    }
    for (unit, means) in [("x", "x"), (" ", " "), ("\\n", "\n"), ("\\\"", "\""), ("\\u3042", "\u{3042}"), ("\\ud83d\\ude00", "\u{1f600}"), ("é", "é"), ("//", "//"), ("}", "}")] {
      read(ctx, &format!("global g = \"{}\";", unit.repeat(n)), &[D::Global("g".into(), st(&means.repeat(n)))]);
      read(ctx, &format!("global g = \"a{}\\t\";", unit.repeat(n)), &[D::Global("g".into(), st(&format!("a{}\t", means.repeat(n))))]);
    }
    if n <= 18 {
      for d in ["1", "9", "5"] {
        let num: i64 = d.repeat(n).parse().unwrap();
        text(ctx, &[D::Global("g".into(), i(num)), D::Global("h".into(), X::Arr(vec![i(-num)]))], "");
      }
    }
    // much blank space in one place, or everywhere
    let p = [D::Global("g".into(), bin(Add, i(1), call("f", vec![v("a"), i(2)]))), func("f", &["a", "b"], vec![iff(v("a"), set("b", i(1)), Some(S::Print(v("b")))), fo("i", i(0), i(2), S::Block(vec![]))])];
    let t = toks(&p);
    for unit in LONG {
      let blank: &'static str = Box::leak(unit.repeat(n).into_boxed_str());
      for at in 0..=t.len() {
        if n <= 4 || (at + n) % 5 == 0 {
          read(ctx, &join(&t, &|k| if k == at { blank } else { "" }), &p);
        }
      }
      read(ctx, &join(&t, &|_| blank), &p);
    }
  }
  // deep nesting
  for n in sizes(ctx, 20, ctx.pick(20, 40)) {
    for form in 0..6 {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      for core in [set("a", i(1)), S::Ex(call("f", vec![])), S::Block(vec![])] {
        let mut s = core;
        for k in 0..n {
          s = match (form, k % 2) {
            (0, _) | (5, 0) => S::Block(vec![s]),
            (1, _) => S::Block(vec![set("b", n_of(k)), s, set("c", n_of(k))]),
            (2, _) => whil(v("a"), s),
            (3, _) | (5, _) => iff(v("a"), s, Some(S::Block(vec![]))),
            (4, _) => iff(v("a"), set("b", n_of(k)), Some(s)),
            _ => fo("i", i(0), v("n"), s),
          };
        }
        text(ctx, &[main_of(vec![s.clone()])], "");
        text(ctx, &[main_of(vec![s])], " ");
      }
    }
  }
}
