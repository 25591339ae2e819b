//! P04: literals, regexes, take/skip, take-while and take-till against direct string oracles.

use mc_core::{h64, words, Ctx};
use oni_comb_parser_rs::prelude::*;

/// Regular expressions as data: an independent leftmost-first backtracking matcher.
#[derive(Clone, Debug)]
pub enum Re {
  C(char),
  Dot,
  Set(&'static str, bool), // chars, negated
  Cat(Vec<Re>),
  Alt(Vec<Re>),
  Rep(Box<Re>, usize, Option<usize>, bool), // min, max, greedy
  Start,
  End,
}
impl Re {
  fn show(&self) -> String {
    match self {
      Re::C(c) => c.to_string(),
      Re::Dot => ".".into(),
      Re::Set(s, n) => format!("[{}{}]", if *n { "^" } else { "" }, s),
      Re::Cat(v) => v.iter().map(|r| if matches!(r, Re::Alt(_)) { format!("({})", r.show()) } else { r.show() }).collect(),
      Re::Alt(v) => v.iter().map(|r| r.show()).collect::<Vec<_>>().join("|"),
      Re::Rep(r, a, b, g) => {
        let q = match (a, b) {
          (0, None) => "*".to_string(),
          (1, None) => "+".to_string(),
          (0, Some(1)) => "?".to_string(),
          (a, Some(b)) => format!("{{{},{}}}", a, b),
          (a, None) => format!("{{{},}}", a),
        };
        let inner = match &**r {
          Re::C(_) | Re::Dot | Re::Set(..) => r.show(),
          _ => format!("(?:{})", r.show()),
        };
        format!("{}{}{}", inner, q, if *g { "" } else { "?" })
      }
      Re::Start => "^".into(),
      Re::End => "$".into(),
    }
  }
  /// All end positions in priority order.
  fn m(&self, s: &[char], i: usize) -> Vec<usize> {
    match self {
      Re::C(c) => if s.get(i) == Some(c) { vec![i + 1] } else { vec![] },
      Re::Dot => if s.get(i).is_some_and(|c| *c != '\n') { vec![i + 1] } else { vec![] },
      Re::Set(x, n) => if s.get(i).is_some_and(|c| x.contains(*c) != *n) { vec![i + 1] } else { vec![] },
      Re::Cat(v) => {
        let mut ends = vec![i];
        for r in v {
          ends = ends.into_iter().flat_map(|e| r.m(s, e)).collect();
        }
        ends
      }
      Re::Alt(v) => v.iter().flat_map(|r| r.m(s, i)).collect(),
      Re::Rep(r, lo, hi, greedy) => Self::rep(r, *lo, *hi, *greedy, s, i),
      Re::Start => if i == 0 { vec![i] } else { vec![] },
      Re::End => if i == s.len() { vec![i] } else { vec![] },
    }
  }
  fn rep(r: &Re, lo: usize, hi: Option<usize>, greedy: bool, s: &[char], i: usize) -> Vec<usize> {
    let more: Vec<usize> = if hi == Some(0) {
      vec![]
    } else {
      r.m(s, i)
        .into_iter()
        .filter(|e| *e > i || lo > 0)
        .flat_map(|e| Self::rep(r, lo.saturating_sub(1), hi.map(|h| h - 1), greedy, s, e))
        .collect()
    };
    let stop: Vec<usize> = if lo == 0 { vec![i] } else { vec![] };
    if greedy {
      more.into_iter().chain(stop).collect()
    } else {
      stop.into_iter().chain(more).collect()
    }
  }
}

fn patterns(deep: bool) -> Vec<Re> {
  use Re::*;
  let atoms = vec![C('a'), C('b'), C('é'), Dot, Set("ab", false), Set("a", true), Set("é1", false)];
  let rep = |r: Re, a, b, g| Rep(Box::new(r), a, b, g);
  let mut one = atoms.clone();
  for a in &atoms {
    one.push(rep(a.clone(), 0, None, true));
    one.push(rep(a.clone(), 1, None, true));
    one.push(rep(a.clone(), 0, Some(1), true));
    one.push(rep(a.clone(), 1, Some(2), true));
    one.push(rep(a.clone(), 0, None, false));
    one.push(rep(a.clone(), 1, None, false));
  }
  let mut v = one.clone();
  for x in &one {
    for y in &one {
      v.push(Cat(vec![x.clone(), y.clone()]));
      v.push(Alt(vec![x.clone(), y.clone()]));
    }
  }
  for x in &atoms {
    for y in &atoms {
      let ab = Cat(vec![x.clone(), y.clone()]);
      v.push(Alt(vec![x.clone(), ab.clone()]));
      v.push(Alt(vec![ab.clone(), x.clone()]));
      v.push(rep(ab.clone(), 1, None, true));
      v.push(Cat(vec![Start, Alt(vec![x.clone(), y.clone()])]));
      v.push(Alt(vec![Cat(vec![Start, x.clone()]), y.clone()]));
      v.push(Cat(vec![Start, x.clone(), y.clone()]));
      v.push(Cat(vec![x.clone(), y.clone(), End]));
      v.push(Alt(vec![Cat(vec![x.clone(), End]), y.clone()]));
      if deep {
        for z in &one {
          v.push(Cat(vec![Alt(vec![x.clone(), y.clone()]), z.clone()]));
          v.push(Alt(vec![x.clone(), y.clone(), z.clone()]));
          v.push(Cat(vec![z.clone(), x.clone(), y.clone()]));
        }
      }
    }
  }
  v
}

type W = Result<(String, usize), bool>;

fn show(w: &W) -> String {
  match w {
    Ok((s, n)) => format!("success {:?} consuming {}", s, n),
    Err(c) => format!("failure committed={}", c),
  }
}

/// Compares `p` with `want` on every offset of every word, alone and through the parser that follows it.
fn sweep<'a>(
  ctx: &mut Ctx,
  name: &str,
  inputs: &'a [Vec<char>],
  offsets: usize,
  p: &dyn Fn() -> Parser<'a, char, String>,
  want: &dyn Fn(&[char]) -> W,
) {
  // one instance per sweep, built inside the first case so that a panic is attributed to it
  let built = std::cell::OnceCell::new();
  for w in inputs {
    let top = w.len().min(offsets);
    ctx.steps(2 * (top as u64 + 1));
    for off in 0..=top {
      ctx.state(h64(&(name, w, off)));
    }
    ctx.case(
      || format!("{} on {:?}", name, w.iter().collect::<String>()),
      || {
        let (q, follow, tail) = built.get_or_init(|| {
          // what follows: everything that is left, and where it starts
          let follow = (p() + (elm_any().of_many0().next_offset()) + (take(0).collect())).collect();
          (p(), follow, p() * elm_any().of_many0())
        });
        let mut fp = 0;
        for off in 0..=top {
          let rest = &w[off..];
          let want = want(rest);
          let got: W = match q.run(&ParseState::new(w, off)) {
            ParseResult::Success { value, length } => Ok((value, length)),
            ParseResult::Failure { committed_status, .. } => Err(committed_status.is_committed()),
          };
          if got != want {
            return Err(format!("at offset {}: expected {}, got {}", off, show(&want), show(&got)));
          }
          if let Ok((_, n)) = &want {
            match tail.run(&ParseState::new(w, off)) {
              ParseResult::Success { value, length } => {
                if value != rest[*n..] || length != rest.len() {
                  return Err(format!("at offset {}: the following parser saw {:?}, expected {:?}", off, value, &rest[*n..]));
                }
              }
              x => return Err(format!("at offset {}: following parser failed: {:?}", off, x)),
            }
            if !follow.run(&ParseState::new(w, off)).is_success() {
              return Err(format!("at offset {}: composition failed", off));
            }
          }
          fp = h64(&(fp, &got));
        }
        Ok(fp)
      },
    );
  }
}

/// All the inputs in one case, from offset 0.
fn pairs<'a>(ctx: &mut Ctx, name: &str, inputs: &'a [Vec<char>], p: &dyn Fn() -> Parser<'a, char, String>, want: &dyn Fn(&[char]) -> W) {
  ctx.steps(inputs.len() as u64);
  ctx.state(h64(&(name, inputs.len())));
  ctx.case(
    || format!("{} on {} words", name, inputs.len()),
    || {
      let p = p();
      let mut fp = 0;
      for w in inputs {
        let want = want(w);
        let got: W = match p.run(&ParseState::new(w, 0)) {
          ParseResult::Success { value, length } => Ok((value, length)),
          ParseResult::Failure { committed_status, .. } => Err(committed_status.is_committed()),
        };
        if got != want {
          return Err(format!("on {:?}: expected {}, got {}", s(w), show(&want), show(&got)));
        }
        fp = h64(&(fp, &got));
      }
      Ok(fp)
    },
  );
}

fn s(x: &[char]) -> String {
  x.iter().collect()
}

fn lit_want(lit: &[char], rest: &[char], no_case: bool) -> W {
  for (i, c) in lit.iter().enumerate() {
    match rest.get(i) {
      None => return Err(false),
      Some(x) => {
        let same = if no_case { x.to_ascii_lowercase() == c.to_ascii_lowercase() } else { x == c };
        if !same {
          return Err(i != 0);
        }
      }
    }
  }
  Ok((s(lit), lit.len()))
}

/// The first maximal contiguous run: (start, end).
fn first_run(rest: &[char], f: fn(&char) -> bool) -> Option<(usize, usize)> {
  let a = rest.iter().position(|c| f(c))?;
  let b = rest[a..].iter().position(|c| !f(c)).map(|k| a + k).unwrap_or(rest.len());
  Some((a, b))
}

pub fn p04(ctx: &mut Ctx) {
  let alpha = ['a', 'b', 'B', 'é', '1'];
  let short: &'static [Vec<char>] = Box::leak(words(&alpha, 3).into_boxed_slice());
  let inputs: &'static [Vec<char>] = Box::leak(words(&alpha, ctx.pick(5, 7)).into_boxed_slice());
  let mid: &'static [Vec<char>] = Box::leak(words(&alpha, ctx.pick(4, 6)).into_boxed_slice());

  // literals: every literal up to length 3
  for l in short {
    if ctx.full() {
      return;
    }
    if !ctx.mine() {
      continue;
    }
    let text: &'static str = Box::leak(s(l).into_boxed_str());
    sweep(ctx, &format!("tag({:?})", text), inputs, 9, &|| tag(text), &|r| lit_want(l, r, false));
    sweep(ctx, &format!("seq({:?})", text), mid, 9, &|| seq(&l[..]).map(|v: Vec<char>| s(&v)), &|r| lit_want(l, r, false));
    sweep(ctx, &format!("tag_no_case({:?})", text), mid, 9, &|| tag_no_case(text), &|r| lit_want(l, r, true));
    // committed partial matches decide a choice; a full match decides it too
    sweep(
      ctx,
      &format!("tag({:?}) | any", text),
      short,
      9,
      &|| tag(text) | elm_any().map(|c: char| c.to_string()),
      &|r| match lit_want(l, r, false) {
        Err(false) => r.first().map(|c| (c.to_string(), 1)).ok_or(false),
        x => x,
      },
    );
  }
  // literals, counts and runs of every length, and around the powers of two
  let mut ls: Vec<usize> = (0..=ctx.pick(40usize, 270)).collect();
  ls.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]);
  ls.extend(crate::long::HUGE);
  ls.sort();
  ls.dedup();
  for n in ls {
    if ctx.full() {
      return;
    }
    if !ctx.mine() {
      continue;
    }
    let run = |c: &str, k: usize, t: &str| -> Vec<char> { format!("{}{}", c.repeat(k), t).chars().collect() };
    let mut ws: Vec<Vec<char>> = vec![];
    for k in [0, n / 2, n.saturating_sub(1), n, n + 1, n + 2] {
      for c in ["a", "A", "é"] {
        for t in ["", "b", "B", "ba", "1"] {
          ws.push(run(c, k, t));
        }
      }
    }
    ws.sort();
    ws.dedup();
    let ws: &'static [Vec<char>] = Box::leak(ws.into_boxed_slice());
    let l = run("a", n, "b");
    let text: &'static str = Box::leak(s(&l).into_boxed_str());
    pairs(ctx, &format!("tag of {} letters", n + 1), ws, &|| tag(text), &|r| lit_want(&l, r, false));
    pairs(ctx, &format!("tag_no_case of {} letters", n + 1), ws, &|| tag_no_case(text), &|r| lit_want(&l, r, true));
    pairs(ctx, &format!("seq of {} letters", n + 1), ws, &|| seq(&l[..]).map(|v: Vec<char>| s(&v)), &|r| lit_want(&l, r, false));
    pairs(ctx, &format!("take({})", n), ws, &|| take(n).map(|x: &[char]| s(x)), &|r| if r.len() >= n { Ok((s(&r[..n]), n)) } else { Err(false) });
    pairs(ctx, &format!("skip({})", n), ws, &|| skip(n).map(|_| String::new()), &|r| if r.len() >= n { Ok((String::new(), n)) } else { Err(false) });
    let f: fn(&char) -> bool = |c| matches!(c, 'a' | 'é');
    pairs(ctx, &format!("take_while0 on {}", n), ws, &|| take_while0(f).map(|x: &[char]| s(x)), &|r| Ok(first_run(r, f).map(|(a, b)| (s(&r[a..b]), b)).unwrap_or_default()));
    pairs(ctx, &format!("take_while1 on {}", n), ws, &|| take_while1(f).map(|x: &[char]| s(x)), &|r| first_run(r, f).map(|(a, b)| (s(&r[a..b]), b)).ok_or(false));
    for (lo, hi) in [(1, n.max(1)), (n.max(1), n.max(1)), (n.max(1), n + 1)] {
      pairs(ctx, &format!("take_while_n_m({}, {})", lo, hi), ws, &|| take_while_n_m(lo, hi, f).map(|x: &[char]| s(x)), &|r| match first_run(r, f) {
        Some((a, b)) if b - a >= lo && b - a <= hi => Ok((s(&r[a..b]), b)),
        _ => Err(false),
      });
    }
    let g: fn(&char) -> bool = |c| matches!(c, 'b' | 'B');
    pairs(ctx, &format!("take_till0 on {}", n), ws, &|| take_till0(g).map(|x: &[char]| s(x)), &|r| {
      let e = r.iter().position(|c| g(c)).map(|k| k + 1).unwrap_or(r.len());
      Ok((s(&r[..e]), e))
    });
    pairs(ctx, &format!("take_till1 on {}", n), ws, &|| take_till1(g).map(|x: &[char]| s(x)), &|r| r.iter().position(|c| g(c)).map(|k| (s(&r[..k + 1]), k + 1)).ok_or(false));
    // a counted pattern of that size would be refused
    let (top, pat) = if n > 600 { (usize::MAX, "(?:a|é)*b?".to_string()) } else { (n, format!("(?:a|é){{0,{}}}b?", n)) };
    pairs(ctx, &format!("regex({:?})", pat), ws, &|| regex(&pat), &|r| {
      let k = r.iter().take(top).take_while(|c| matches!(c, 'a' | 'é')).count();
      let e = if r.get(k) == Some(&'b') { k + 1 } else { k };
      Ok((s(&r[..e]), e))
    });
  }
  // every pair of a literal's element and an input's element around the edges of ASCII letters and case
  let mut marks: Vec<char> = (0u32..0x180).filter_map(char::from_u32).collect();
  marks.extend("\u{212a}\u{130}\u{131}\u{17f}\u{1e9e}\u{df}\u{3a3}\u{3c2}\u{3c3}\u{ff21}\u{ff41}\u{1f600}".chars());
  let singles: &'static [Vec<char>] = Box::leak(marks.iter().flat_map(|c| [vec![*c], vec!['k', *c, 'z'], vec!['K', *c]]).collect::<Vec<_>>().into_boxed_slice());
  for c in &marks {
    if ctx.full() {
      return;
    }
    if !ctx.mine() {
      continue;
    }
    for l in [vec![*c], vec!['k', *c]] {
      let text: &'static str = Box::leak(s(&l).into_boxed_str());
      pairs(ctx, &format!("tag_no_case({:?})", text), singles, &|| tag_no_case(text), &|r| lit_want(&l, r, true));
      pairs(ctx, &format!("tag({:?})", text), singles, &|| tag(text), &|r| lit_want(&l, r, false));
      pairs(ctx, &format!("seq({:?})", text), singles, &|| seq(&l[..]).map(|v: Vec<char>| s(&v)), &|r| lit_want(&l, r, false));
    }
  }
  // every character in the input (also those of two UTF-16 units and the NUL)
  let top = ctx.pick(0x3100u32, 0x110000);
  let rest = [0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x1D4B3, 0x20000, 0x10FFFF];
  let all: Vec<char> = (0..top).chain(rest).filter_map(char::from_u32).collect();
  for block in all.chunks(64) {
    if ctx.full() {
      return;
    }
    if !ctx.mine() {
      continue;
    }
    let ws: &'static [Vec<char>] = Box::leak(block.iter().flat_map(|c| [vec!['a', *c, 'b'], vec![*c, *c, 'a', *c], vec!['a', 'a', *c]]).collect::<Vec<_>>().into_boxed_slice());
    let what = |t: &str| format!("{} from {:?}", t, block[0]);
    let all = |r: &[char]| -> W { Ok((s(r), r.len())) };
    pairs(ctx, &what("regex (?s).*"), ws, &|| regex("(?s).*"), &all);
    pairs(ctx, &what("regex (?s:.)+?$"), ws, &|| regex("(?s:.)+?$"), &all);
    pairs(ctx, &what("regex (?s).."), ws, &|| regex("(?s).."), &|r| Ok((s(&r[..2]), 2)));
    pairs(ctx, &what("regex [^b]*"), ws, &|| regex("[^b]*"), &|r| {
      let e = r.iter().position(|c| *c == 'b').unwrap_or(r.len());
      Ok((s(&r[..e]), e))
    });
    pairs(ctx, &what("regex (?s)a.b"), ws, &|| regex("(?s)a.b"), &|r| if r[0] == 'a' && r[2] == 'b' { all(r) } else { Err(false) });
    pairs(ctx, &what("take"), ws, &|| take(2).map(|x: &[char]| s(x)), &|r| Ok((s(&r[..2]), 2)));
    pairs(ctx, &what("skip, take"), ws, &|| skip(1) * take(2).map(|x: &[char]| s(x)), &|r| Ok((s(&r[1..3]), 3)));
    pairs(ctx, &what("take_while1"), ws, &|| take_while1(|c: &char| *c != 'b').map(|x: &[char]| s(x)), &|r| {
      Ok(first_run(r, |c| *c != 'b').map(|(a, b)| (s(&r[a..b]), b)).unwrap())
    });
  }
  // regexes
  for re in &patterns(true) {
    if ctx.full() {
      return;
    }
    if !ctx.mine() {
      continue;
    }
    let pat = re.show();
    sweep(ctx, &format!("regex({:?})", pat), inputs_upto(inputs, ctx.pick(3, 5)), 9, &|| regex(&pat), &|r| {
      re.m(r, 0).first().map(|e| (s(&r[..*e]), *e)).ok_or(false)
    });
    // the same pattern spelled in other ways
    for form in ["(?:#)", "(#)", "(?P<x>#)", "(?x)#", "(?x) # //a note", "(?x) //a note\n #", "(?x)#//a|b)", "(?-x)#", "(?-s)#", "(?:(?:#))", "(?u)#", "^(?:#)", "(?:^(?:#))", "\\A(?:#)", "(?:#|#)", "(?:#){1}"] {
      // "//" marks the comment, "#" the place of the pattern
      let (code, note) = form.split_once("//").map_or((form.to_string(), String::new()), |(a, b)| match b.split_once('\n') {
        Some((c, d)) => (d.to_string(), format!("{}#{}\n", a, c)),
        None => (a.to_string(), format!("#{}", b)),
      });
      let spelled = if form.contains('\n') { format!("{}{}", note, code.replace('#', &pat)) } else { format!("{}{}", code.replace('#', &pat), note) };
      sweep(ctx, &format!("regex({:?})", spelled), inputs_upto(inputs, 2), 4, &|| regex(&spelled), &|r| {
        re.m(r, 0).first().map(|e| (s(&r[..*e]), *e)).ok_or(false)
      });
    }
  }
  // take / skip
  for n in 0..=7usize {
    if ctx.mine() {
      sweep(ctx, &format!("take({})", n), inputs, 9, &|| take(n).map(|x: &[char]| s(x)), &|r| if r.len() >= n { Ok((s(&r[..n]), n)) } else { Err(false) });
    }
    if ctx.mine() {
      sweep(ctx, &format!("skip({})", n), inputs, 9, &|| skip(n).map(|_| String::new()), &|r| if r.len() >= n { Ok((String::new(), n)) } else { Err(false) });
      sweep(ctx, &format!("skip({}).collect", n), mid, 9, &|| skip(n).collect().map(|x: &[char]| s(x)), &|r| if r.len() >= n { Ok((s(&r[..n]), n)) } else { Err(false) });
    }
  }
  // take-while / take-till
  let fs: [(&str, fn(&char) -> bool); 5] =
    [("a", |c| *c == 'a'), ("ab", |c| matches!(c, 'a' | 'b')), ("not a", |c| *c != 'a'), ("all", |_| true), ("none", |_| false)];
  for (name, f) in fs {
    for half in 0..2 {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      let inputs = if half == 0 { &inputs[..inputs.len() / 2] } else { &inputs[inputs.len() / 2..] };
      sweep(ctx, &format!("take_while0({})", name), inputs, 9, &|| take_while0(f).map(|x: &[char]| s(x)), &|r| {
        Ok(first_run(r, f).map(|(a, b)| (s(&r[a..b]), b)).unwrap_or_default())
      });
      sweep(ctx, &format!("take_while1({})", name), inputs, 9, &|| take_while1(f).map(|x: &[char]| s(x)), &|r| {
        first_run(r, f).map(|(a, b)| (s(&r[a..b]), b)).ok_or(false)
      });
      sweep(ctx, &format!("take_till0({})", name), inputs, 9, &|| take_till0(f).map(|x: &[char]| s(x)), &|r| {
        let e = r.iter().position(|c| f(c)).map(|k| k + 1).unwrap_or(r.len());
        Ok((s(&r[..e]), e))
      });
      sweep(ctx, &format!("take_till1({})", name), inputs, 9, &|| take_till1(f).map(|x: &[char]| s(x)), &|r| {
        r.iter().position(|c| f(c)).map(|k| (s(&r[..k + 1]), k + 1)).ok_or(false)
      });
    }
    for n in 1..=3usize {
      for m in n..=4usize {
        if !ctx.mine() {
          continue;
        }
        sweep(ctx, &format!("take_while_n_m({}, {}, {})", n, m, name), inputs, 9, &|| take_while_n_m(n, m, f).map(|x: &[char]| s(x)), &|r| {
          match first_run(r, f) {
            Some((a, b)) if b - a >= n && b - a <= m => Ok((s(&r[a..b]), b)),
            _ => Err(false),
          }
        });
      }
    }
  }
}

fn inputs_upto(v: &'static [Vec<char>], n: usize) -> &'static [Vec<char>] {
  let k = v.iter().position(|w| w.len() > n).unwrap_or(v.len());
  &v[..k]
}
