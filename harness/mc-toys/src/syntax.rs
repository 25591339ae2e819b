//! T01 (grouping) and T04 (statements and layouts).

use crate::lang::*;
use crate::run::*;
use mc_core::{h64, Ctx};

/// The expression as the value of a global and in a function's body.
fn settings(e: &str, x: &X) -> Vec<(String, Vec<D>)> {
  vec![
    (format!("global g = {};", e), vec![D::Global("g".into(), x.clone())]),
    (format!("fn main(){{{};}}", e), vec![func("main", &[], vec![S::Ex(x.clone())])]),
  ]
}

pub fn read(ctx: &mut Ctx, t: &str, want: &[D]) {
  ctx.state(h64(t));
  ctx.case(
    || format!("program {:?}", t),
    || {
      let got = parse(t)?.map_err(|e| format!("rejected: {}", e))?;
      let want = program(want);
      if got != want {
        return Err(format!("expected {:?}, got {:?}", want, got));
      }
      Ok(h64(&format!("{:?}", want)))
    },
  );
}

fn operands(kind: usize, n: usize) -> Vec<X> {
  let one = |k: usize| match kind {
    0 => i(k as i64 + 1),
    1 => v(["a", "b", "c", "d", "e"][k]),
    2 => [i(-1), v("x_1"), i(20), v("total"), i(-3)][k].clone(),
    3 => [call("f", vec![i(1), v("a")]), b(true), st("s t"), X::Arr(vec![i(1), i(2)]), lcall("g", vec![("n", i(1))])][k].clone(),
    _ => [v("true1"), v("fortune"), v("inner"), v("_"), call("f", vec![])][k].clone(),
  };
  (0..n).map(one).collect()
}

/// The groups [from, to] that a pair of parentheses may stand around, and none.
fn groups(n: usize) -> Vec<Option<(usize, usize)>> {
  let mut out = vec![None];
  for a in 0..n {
    for z in a..n {
      out.push(Some((a, z)));
    }
  }
  out
}

fn with_group(xs: &[X], ops: &[Op], g: Option<(usize, usize)>) -> X {
  match g {
    None => group(xs, ops),
    Some((a, z)) => {
      let inner = paren(group(&xs[a..=z], &ops[a..z]));
      let mut ys = xs[..a].to_vec();
      ys.push(inner);
      ys.extend_from_slice(&xs[z + 1..]);
      let mut os = ops[..a].to_vec();
      os.extend_from_slice(&ops[z..]);
      group(&ys, &os)
    }
  }
}

fn source(xs: &[X], ops: &[Op], g: Option<(usize, usize)>) -> Toks {
  let mut out = vec![];
  for (k, x) in xs.iter().enumerate() {
    if k > 0 {
      out.push(ops[k - 1].text().to_string());
    }
    if g.map_or(false, |g| g.0 == k) {
      out.push("(".into());
    }
    toks_x(x, &mut out);
    if g.map_or(false, |g| g.1 == k) {
      out.push(")".into());
    }
  }
  out
}

const GAPS: [&str; 4] = ["", " ", "\n", " \t\r\n  "];

fn sequences(n: usize, f: &mut dyn FnMut(&[Op])) {
  let total = OPS.len().pow(n as u32);
  for mut k in 0..total {
    let mut ops = vec![];
    for _ in 0..n {
      ops.push(OPS[k % OPS.len()]);
      k /= OPS.len();
    }
    f(&ops);
  }
}

/// One of each level.
const REPS: [Op; 6] = [Mul, Div, Mod, Sub, And, Lt];

pub fn t01(ctx: &mut Ctx) {
  crate::large::t01(ctx);
  // every operator sequence
  for n in 0..=ctx.pick(2usize, 3) {
    sequences(n, &mut |ops| {
      if !ctx.mine() || ctx.full() {
        return;
      }
      for kind in 0..5 {
        let xs = operands(kind, n + 1);
        for g in groups(n + 1) {
          if n > 1 && kind > 1 && g.is_some() && !ctx.thorough() {
            continue;
          }
          let want = with_group(&xs, ops, g);
          let t = source(&xs, ops, g);
          for gap in GAPS {
            ctx.steps(t.len() as u64);
            let e = join(&t, &|k| if k == 0 || k == t.len() { "" } else { gap });
            for (text, tree) in settings(&e, &want) {
              read(ctx, &text, &tree);
              if n > 1 {
                break;
              }
            }
          }
        }
      }
    });
  }
  // longer sequences over one operator of each kind
  for n in ctx.pick(3usize, 4)..=ctx.pick(4usize, 5) {
    for k in 0..REPS.len().pow(n as u32) {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let ops: Vec<Op> = (0..n).map(|d| REPS[k / REPS.len().pow(d as u32) % REPS.len()]).collect();
      let xs: Vec<X> = (0..=n).map(|k| i(k as i64)).collect();
      for g in if n <= 3 || ctx.thorough() { groups(n + 1) } else { vec![None, Some((0, n - 1)), Some((1, n)), Some((1, n - 1))] } {
        let want = with_group(&xs, &ops, g);
        let t = source(&xs, &ops, g);
        ctx.steps(t.len() as u64);
        let e = t.join(if k % 2 == 0 { " " } else { "" });
        let (text, tree) = settings(&e, &want).remove(k % 2);
        read(ctx, &text, &tree);
      }
    }
  }
  // every nesting of groups, as deep as the bound
  let leaves = [i(1), v("a"), i(-2)];
  let wraps: [&dyn Fn(X) -> X; 6] = [
    &|x| paren(x),
    &|x| paren(bin(Sub, x, i(1))),
    &|x| paren(bin(Sub, i(7), x)),
    &|x| call("f", vec![x, v("b")]),
    &|x| X::Arr(vec![i(0), x]),
    &|x| lcall("f", vec![("n", i(3)), ("m", x)]),
  ];
  let mut level: Vec<X> = leaves.to_vec();
  for _ in 0..ctx.pick(3, 4) {
    level = level.iter().flat_map(|x| wraps.iter().map(move |w| w(x.clone()))).collect();
    for x in &level {
      if ctx.mine() && !ctx.full() {
        let mut t = vec![];
        toks_x(x, &mut t);
        ctx.steps(t.len() as u64);
        for gap in ["", " "] {
          let e = join(&t, &|k| if k == 0 || k == t.len() { "" } else { gap });
          read(ctx, &settings(&e, x)[0].0, &settings(&e, x)[0].1);
        }
      }
    }
  }
}

// ------------------------------------------------------------------ T04

fn statements(depth: usize) -> Vec<S> {
  let mut out = vec![
    set("a", i(1)),
    S::Print(bin(Add, v("a"), i(2))),
    S::Ex(call("f", vec![v("a"), st("x\"y\\z\n")])),
    S::Ex(lcall("f", vec![("n", i(5)), ("m", X::Arr(vec![]))])),
    S::Ex(bin(Eq, v("a"), i(3))),
    set("format", b(false)),
    S::Block(vec![]),
  ];
  if depth == 0 {
    return out;
  }
  let small = [set("a", i(1)), S::Block(vec![]), S::Ex(call("elsewhere", vec![])), S::Print(st("}")), S::Block(vec![set("a", i(1)), S::Ex(v("falsely"))])];
  let cond = bin(Lt, v("a"), i(10));
  for s in &small {
    out.push(iff(b(true), s.clone(), None));
    for t in &small {
      out.push(iff(cond.clone(), s.clone(), Some(t.clone())));
    }
    out.push(whil(cond.clone(), s.clone()));
    out.push(fo("i", i(1), i(10), s.clone()));
    out.push(S::Block(vec![s.clone()]));
  }
  out.push(fo("index", v("from"), bin(Add, v("total"), i(1)), set("a", v("index"))));
  out.push(iff(b(true), iff(b(false), set("a", i(1)), Some(set("a", i(2)))), None));
  out.push(iff(b(true), S::Block(vec![iff(b(false), set("a", i(1)), None)]), Some(set("a", i(2)))));
  out.push(iff(b(true), set("a", i(1)), Some(iff(b(false), set("a", i(2)), Some(set("a", i(3)))))));
  for s in statements(depth - 1) {
    out.push(whil(v("ok"), s.clone()));
    out.push(S::Block(vec![set("b", i(2)), s.clone(), set("c", i(3))]));
    out.push(iff(paren(v("ok")), s.clone(), Some(S::Block(vec![s.clone()]))));
    out.push(fo("k", i(0), v("n"), s));
  }
  out
}

/// Programs with how much is done with them: 0 a layout or two, 1 all uniform layouts, 2 every change of one gap and
/// of one token as well.
fn programs(ctx: &Ctx) -> Vec<(usize, Vec<D>)> {
  let more = ctx.pick(0, 1);
  let mut out: Vec<(usize, Vec<D>)> = vec![
    (2, vec![]),
    (2, vec![D::Global("g".into(), i(1))]),
    (2, vec![D::Global("g".into(), i(1)), D::Global("functional".into(), bin(Add, v("g"), i(1))), func("main", &[], vec![])]),
    (2, vec![func("f", &[], vec![]), func("g", &["a"], vec![]), func("h", &["a", "b", "c"], vec![S::Ex(v("b"))])]),
    (2, vec![func("f", &["fn1"], vec![S::Ex(v("fn1"))]), D::Global("global1".into(), X::Arr(vec![i(1), st(""), b(false)])), func("main", &[], vec![S::Print(call("f", vec![v("global1")]))])]),
  ];
  for s in statements(1) {
    out.push((2, vec![func("main", &["n"], vec![s])]));
  }
  for s in statements(ctx.pick(2, 3)) {
    out.push((more, vec![func("main", &["n"], vec![s])]));
  }
  let few = statements(1);
  for (k, s) in few.iter().enumerate() {
    for t in few.iter().skip(k % 3).step_by(ctx.pick(3, 1)) {
      out.push((0, vec![func("main", &[], vec![s.clone(), t.clone()])]));
    }
  }
  out
}

const STRANGE: [&str; 47] = [
  "+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "=", ";", ",", "(", ")", "[", "]", "{", "}", "a", "1", "\"s\"", "true", "@", "é", "²", "٣", "$", "\\", "'", "\"", "#", ".", ":", "?", "~", "`", "\u{a0}", "\u{3000}",
  "\u{c}", "\0", "\u{b}", "\u{85}", "\u{2028}",
];

fn check_tokens(ctx: &mut Ctx, t: &[String], gap: &'static str) {
  let text = join(t, &|_| gap);
  ctx.state(h64(&text));
  ctx.steps(1);
  ctx.case(
    || format!("program {:?}", text),
    || {
      let got = parse(&text)?;
      match (recognise(t), got) {
        (Reading::Open, _) => Ok(1),
        (Reading::NotAProgram, Err(_)) => Ok(2),
        (Reading::NotAProgram, Ok(e)) => Err(format!("not a program, but read as {:?}", e)),
        (Reading::Program(p), Ok(e)) if program(&p) == e => Ok(h64(&format!("{:?}", e))),
        (Reading::Program(p), Ok(e)) => Err(format!("expected {:?}, got {:?}", program(&p), e)),
        (Reading::Program(_), Err(e)) => Err(format!("rejected: {}", e)),
      }
    },
  );
}

pub fn t04(ctx: &mut Ctx) {
  crate::large::t04(ctx);
  for (n, (effort, p)) in programs(ctx).into_iter().enumerate() {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    let t = toks(&p);
    // an if without else in front of an else reads as another tree
    if !matches!(recognise(&t), Reading::Program(q) if program(&q) == program(&p)) && !t.iter().any(|x| x.contains('\\') || x.starts_with('-')) {
      ctx.note("trees_whose_text_belongs_to_another_tree", 1);
      continue;
    }
    for (k, gap) in GAPS.iter().enumerate() {
      if effort > 0 || k == n % 4 {
        ctx.steps(t.len() as u64);
        read(ctx, &join(&t, &|_| gap), &p);
      }
    }
    if effort < 2 {
      continue;
    }
    // one gap different from all others
    for (base, other) in [("", " \n"), (" ", ""), ("", "\t")] {
      for k in 0..=t.len() {
        if !ctx.thorough() && (t.len() > 20 && (k + n) % 4 != 0) {
          continue;
        }
        read(ctx, &join(&t, &|j| if j == k { other } else { base }), &p);
      }
    }
    // one token missing, doubled or exchanged with the next one; strings with escapes are left alone
    if t.iter().any(|x| x.starts_with('-') || x.contains('\\')) {
      continue;
    }
    // one token more, among them some that belong to no program
    for k in 0..=t.len() {
      for (j, x) in STRANGE.iter().enumerate() {
        if !ctx.thorough() && t.len() > 12 && (j + k + n) % 6 != 0 || x.contains('"') && t.iter().any(|y| y.contains('"')) {
          continue;
        }
        let mut u = t.clone();
        u.insert(k, x.to_string());
        check_tokens(ctx, &u, " ");
        // written without blanks, a sign would belong to the number behind it
        if *x != "-" {
          check_tokens(ctx, &u, "");
        }
      }
    }
    for k in 0..t.len() {
      let mut u = t.clone();
      u.remove(k);
      check_tokens(ctx, &u, " ");
      if !ctx.thorough() && k % 3 != n % 3 {
        continue;
      }
      let mut u = t.clone();
      u.insert(k, t[k].clone());
      check_tokens(ctx, &u, " ");
      if k + 1 < t.len() {
        let mut u = t.clone();
        u.swap(k, k + 1);
        check_tokens(ctx, &u, " ");
      }
      if k > 0 {
        check_tokens(ctx, &t[..k], "");
        check_tokens(ctx, &t[k..], " ");
      }
    }
  }
  // every short token sequence as a body, as an expression, as a whole program
  let body = ["a", "1", "=", ";", "(", ")", "{", "}", "if", "else", "while", "println", "+"];
  token_words(ctx, &["fn", "main", "(", ")", "{"], &body, ctx.pick(3, 5), &["}"]);
  let ex = ["a", "1", "(", ")", "[", "]", ",", "=", "==", "*", "true", "\"s\""];
  token_words(ctx, &["global", "g", "="], &ex, ctx.pick(3, 5), &[";"]);
  let top = ["fn", "global", "a", "(", ")", "{", "}", "=", "1", ";", ","];
  token_words(ctx, &[], &top, ctx.pick(4, 6), &[]);
  let counting = ["i", "in", "1", "to", "(", ")", "n", "+", ";"];
  token_words(ctx, &["fn", "f", "(", ")", "{", "for"], &counting, ctx.pick(3, 5), &["n", ")", "a", ";", "}"]);
  // names of every short spelling in every role
  let first = ["a", "Z", "_", "i", "f", "n", "t", "z", "A"];
  let next = ["", "a", "Z", "_", "0", "9", "f", "n", "o", "z", "A"];
  const WORDS: [&str; 12] = ["fn", "if", "in", "to", "for", "else", "while", "global", "println", "return", "true", "false"];
  for a in first {
    for b in next {
      for c in next {
        let name = format!("{}{}{}", a, b, c);
        if !ctx.mine() || ctx.full() || WORDS.contains(&name.as_str()) || (b.is_empty() && !c.is_empty()) {
          continue;
        }
        let n = name.as_str();
        ctx.steps(20);
        let p = [
          D::Global(n.into(), v(n)),
          func(n, &[n, "other"], vec![set(n, v(n)), S::Print(bin(Add, v(n), call(n, vec![v(n)]))), S::Ex(lcall(n, vec![(n, v(n)), (n, i(1))]))]),
          func("f", &["p", n], vec![fo(n, v(n), v(n), S::Ex(v(n))), whil(v(n), S::Block(vec![S::Ex(v(n))])), iff(v(n), S::Ex(v(n)), Some(S::Ex(v(n)))), S::Ex(X::Arr(vec![v(n), paren(v(n))]))]),
        ];
        let t = toks(&p);
        for gap in ["", " ", "\n"] {
          read(ctx, &join(&t, &|_| gap), &p);
        }
      }
    }
  }
  // integer literals of every length
  let mut ints: Vec<i128> = (0..130).collect();
  for k in 0..19 {
    ints.extend([10i128.pow(k) - 1, 10i128.pow(k), 10i128.pow(k) + 1, 9 * 10i128.pow(k), 1234567890123456789 / 10i128.pow(k), 5 * 10i128.pow(k) + 7]);
  }
  for k in [7, 8, 15, 16, 24, 31, 32, 53, 62, 63] {
    ints.extend([(1i128 << k) - 1, 1 << k, (1 << k) + 1]);
  }
  ints.sort();
  ints.dedup();
  for n in ints {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    for x in [n, -n] {
      // zero has no sign, and larger numbers are no integers of the language
      if let (Ok(x), true) = (i64::try_from(x), x != 0 || n == 0) {
        ctx.steps(20);
        let sum = || bin(Lt, bin(Mul, i(x), v("a")), i(x));
        let p = [
          D::Global("g".into(), i(x)),
          func("f", &["a"], vec![set("a", i(x)), S::Print(sum()), S::Ex(call("f", vec![i(x), paren(i(x))])), S::Ex(lcall("f", vec![("a", i(x))])), fo("k", i(x), i(x), S::Ex(X::Arr(vec![i(x), i(1), i(x)]))), iff(bin(Eq, i(x), i(x)), S::Ex(i(x)), Some(S::Ex(sum())))]),
        ];
        let t = toks(&p);
        for gap in ["", " ", "\n"] {
          read(ctx, &join(&t, &|_| gap), &p);
        }
      }
    }
  }
  // string literals
  let pieces = ["x", " ", "/", "'", "{", "\\\"", "\\\\", "\\n", "\\t", "\\r", "\\b", "\\f", "\\/", "\\u0041", "\\u00e9", "\\u3042", "\\ud83d\\ude00"];
  let mean = ["x", " ", "/", "'", "{", "\"", "\\", "\n", "\t", "\r", "\u{8}", "\u{c}", "/", "A", "\u{e9}", "\u{3042}", "\u{1f600}"];
  let max = ctx.pick(2u32, 3);
  for len in 0..=max {
    for k in 0..pieces.len().pow(len) {
      if k % 16 == 0 {
        ctx.mine();
      }
      if !ctx.last_mine() || ctx.full() {
        continue;
      }
      let idx: Vec<usize> = (0..len).map(|d| k / pieces.len().pow(d) % pieces.len()).collect();
      let t: String = idx.iter().map(|j| pieces[*j]).collect();
      let w: String = idx.iter().map(|j| mean[*j]).collect();
      ctx.steps(len as u64);
      read(ctx, &format!("global g = \"{}\" ;", t), &[D::Global("g".into(), X::Str(w))]);
    }
  }
}

fn token_words(ctx: &mut Ctx, before: &[&str], alphabet: &[&str], max: u32, after: &[&str]) {
  for len in 0..=max {
    for k in 0..alphabet.len().pow(len) {
      if k % 32 == 0 {
        ctx.mine();
      }
      if !ctx.last_mine() || ctx.full() {
        continue;
      }
      let mut t: Toks = before.iter().map(|x| x.to_string()).collect();
      for d in 0..len {
        t.push(alphabet[k / alphabet.len().pow(d) % alphabet.len()].to_string());
      }
      t.extend(after.iter().map(|x| x.to_string()));
      check_tokens(ctx, &t, if k % 2 == 0 { " " } else { "" });
    }
  }
}
