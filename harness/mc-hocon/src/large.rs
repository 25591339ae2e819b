//! Documents that are regular but large: many definitions, long chains, deep paths, long scalars and gaps.

use crate::docs::{meaning, run, text, Doc, Outcome, Rhs, STYLES};
use crate::view::*;
use mc_core::{h64, Ctx};
use std::collections::BTreeMap;

pub fn sizes(ctx: &Ctx, dense: usize, top: usize) -> Vec<usize> {
  let mut v: Vec<usize> = (1..=dense).collect();
  v.extend([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257]);
  if ctx.thorough() {
    v.extend([300, 511, 512, 513, 1000]);
  }
  if top > 1000 {
    v.extend([512, 513, 1000, 1024, 1025, 4096, 4097]);
  }
  v.retain(|n| *n <= top);
  v.sort();
  v.dedup();
  v
}

/// Names without digits.
pub fn name(prefix: &str, mut n: usize) -> String {
  let mut t = prefix.to_string();
  for _ in 0..3 {
    t.push((b'a' + (n % 26) as u8) as char);
    n /= 26;
  }
  t
}

fn leak(t: String) -> &'static str {
  Box::leak(t.into_boxed_str())
}

fn key(n: usize) -> &'static str {
  leak(name("k", n))
}

fn watch(d: &Doc) -> Vec<String> {
  let mut v: Vec<String> = d.iter().map(|(p, _)| p.to_string()).collect();
  v.extend(["nothing".to_string(), "k".to_string()]);
  if let Some(last) = d.last() {
    v.push(format!("{}.x", last.0));
  }
  v
}

fn each(ctx: &mut Ctx, d: &Doc, env: &BTreeMap<String, String>, styles: &[crate::docs::Style]) {
  let w = watch(d);
  run(ctx, d, env, styles, &w);
}

/// n members from the key `from` on.
fn members(from: usize, n: usize, value: usize) -> Rhs {
  Rhs::Obj((from..from + n).map(|k| (key(k), Rhs::Int((value + k) as i128))).collect())
}

pub fn h02(ctx: &mut Ctx) {
  let none = BTreeMap::new();
  let i = |n: usize| Rhs::Int(n as i128);
  for n in sizes(ctx, 12, ctx.pick(200, 1000)) {
    for form in 0..12 {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let deep: Vec<String> = (0..n.min(60)).map(|k| name("p", k)).collect();
      let d: Doc = match form {
        // distinct keys, every third defined again
        0 => (0..n).map(|k| (key(k), i(k))).chain((0..n).step_by(3).map(|k| (key(k), Rhs::Obj(vec![("x", i(k))])))).chain((0..n).step_by(4).map(|k| (leak(format!("{}.y", key(k))), i(k)))).collect(),
        // one key, over and over
        1 => (0..n).map(|k| ("a", i(k))).collect(),
        2 => (0..n).map(|k| if k % 5 == 4 { ("a", i(k)) } else { ("a", Rhs::Obj(vec![(["x", "y", "z"][k % 3], i(k))])) }).collect(),
        // members added one by one
        3 => (0..n).map(|k| (leak(format!("a.{}", key(k % 37))), if k % 2 == 0 { i(k) } else { Rhs::Obj(vec![("x", i(k))]) })).collect(),
        4 => vec![("a", Rhs::Obj((0..n).map(|k| (key(k % 29), i(k))).collect())), ("a", Rhs::Obj((0..n).map(|k| (key(k % 31), i(1000 + k))).collect()))],
        // deep paths, cut off again at several levels
        5 => {
          let mut d = vec![(leak(deep.join(".")), i(0))];
          for cut in [deep.len(), deep.len() / 2 + 1, 1] {
            d.push((leak(format!("{}.q", deep[..cut].join("."))), i(cut)));
          }
          d
        }
        6 => {
          let mut d = vec![(leak(deep.join(".")), i(0)), (leak(format!("{}.side", deep[..deep.len() / 2 + 1].join("."))), i(1))];
          d.push((leak(deep[..deep.len() / 2 + 1].join(".")), Rhs::Obj(vec![("new", i(2))])));
          d.push((leak(deep[..deep.len() / 3 + 1].join(".")), i(3)));
          d.push((leak(deep.join(".")), i(4)));
          d
        }
        // objects of many members that overlap in part or not at all, on two levels
        7 => vec![("a", members(0, n, 0)), ("a", members(n / 2, n, 1000)), ("a", members(n + n / 4, n, 2000))],
        8 => vec![("a", members(0, 1, 0)), ("a", members(1, n, 1000)), ("a", members(n, 1, 2000))],
        9 => vec![("a.b", members(0, n, 0)), ("a", Rhs::Obj(vec![("b", members(n / 2, n, 1000)), ("c", members(0, n, 3000))])), ("a.c", members(n - 1, n, 4000))],
        10 => vec![("a", members(0, n, 0)), ("a", i(1)), ("a", members(n / 2, n, 1000)), ("a", Rhs::Obj(vec![])), ("a", members(n, n, 2000))],
        _ => vec![("a", Rhs::Arr((0..n).map(|k| if k % 3 == 0 { Rhs::Obj(vec![("x", i(k))]) } else { i(k) }).collect())), ("b", i(1)), ("a", Rhs::Arr((0..n).rev().map(i).collect()))],
      };
      let styles: &[_] = if n > 40 { &STYLES[..2] } else { &STYLES };
      each(ctx, &d, &none, styles);
    }
  }
}

pub fn h03(ctx: &mut Ctx, env: &BTreeMap<String, String>) {
  let i = |n: usize| Rhs::Int(n as i128);
  for n in sizes(ctx, 10, ctx.pick(65, 200)) {
    for form in 0..13 {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let link = |k: usize| (key(k), if k == 0 { i(7) } else { Rhs::Ref(key(k - 1), k % 3 == 1) });
      let d: Doc = match form {
        // a chain, in both directions and mixed
        0 => (0..=n).map(link).collect(),
        1 => (0..=n).rev().map(link).collect(),
        2 => (0..=n).map(|k| (k * 7) % (n + 1)).collect::<std::collections::BTreeSet<_>>().into_iter().map(|k| link((k + n / 2) % (n + 1))).collect(),
        // many references to one definition, before and behind it
        3 => (1..=n).map(|k| (key(k), Rhs::Ref("base", false))).chain([("base", Rhs::Obj(vec![("x", i(1)), ("y.z", i(2))]))]).collect(),
        4 => vec![("base", Rhs::Arr(vec![i(1), i(2)])), ("all", Rhs::Arr((0..n).map(|k| if k % 4 == 3 { Rhs::Ref("zz", true) } else { Rhs::Ref("base", k % 2 == 0) }).collect()))],
        // a definition that refers to its own earlier meaning, again and again
        5 => [("a", i(1))].into_iter().chain((0..n).map(|k| ("a", Rhs::Ref("a", k % 2 == 1)))).collect(),
        6 => [("a", Rhs::Obj(vec![("x", i(1))]))].into_iter().chain((0..n).map(|k| if k % 2 == 0 { ("a", Rhs::Ref("a", false)) } else { ("a", Rhs::Obj(vec![(key(k % 20), i(k))])) })).collect(),
        // deep targets, all of them read
        7 => {
          let deep: Vec<String> = (0..n.min(50)).map(|k| name("p", k)).collect();
          let mut d: Doc = vec![(leak(deep.join(".")), i(5))];
          for cut in [1, deep.len() / 2 + 1, deep.len()] {
            d.push((leak(name("use", cut)), Rhs::Ref(leak(deep[..cut].join(".")), false)));
          }
          d.push((leak(name("no", 1)), Rhs::Ref(leak(format!("{}.beyond", deep.join("."))), true)));
          d
        }
        // objects of many members, referred to and overridden in part
        8 => vec![("b", members(0, n, 0)), ("a", Rhs::Ref("b", false)), ("a", members(n / 2, n, 1000)), ("c", Rhs::Ref("a", true))],
        9 => vec![("b", members(0, n, 0)), ("a", members(n / 2, n, 1000)), ("a", Rhs::Ref("b", false)), ("b", members(n, n, 2000))],
        10 => vec![("c", Rhs::Ref("a", false)), ("b", members(0, n, 0)), ("d", members(n - 1, n, 1000)), ("a", Rhs::Ref("b", false)), ("a", Rhs::Ref("d", false)), ("a", members(2 * n - 1, 1, 2000))],
        11 => vec![("a", members(0, n, 0)), ("a", Rhs::Ref("a", false)), ("a", members(n / 2, n, 1000)), ("b", Rhs::Obj(vec![("x", Rhs::Ref("a", false)), ("y", members(0, n, 5))]))],
        // the last of many is broken, or comes from the environment
        _ => (0..n).map(|k| (key(k), i(k))).chain([("last", Rhs::Ref("E", n % 2 == 0)), ("copy", Rhs::Ref("last", n % 4 == 0))]).collect(),
      };
      each(ctx, &d, env, &STYLES[..2]);
    }
  }
}

fn case(ctx: &mut Ctx, what: &str, n: usize, t: &str, want: &V) {
  ctx.state(h64(&(what, n, t)));
  ctx.steps(n as u64);
  ctx.case(|| format!("{} of size {}: {:?}", what, n, if t.len() > 300 { &t[..(0..300).rev().find(|k| t.is_char_boundary(*k)).unwrap()] } else { t }), || expect(t, want));
}

pub fn h01(ctx: &mut Ctx) {
  for n in sizes(ctx, 40, 5000) {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    for (unit, escaped) in [("a", "a"), ("é", "é"), ("\"", "\\\""), ("\\", "\\\\"), ("\n", "\\n"), ("😀", "\\ud83d\\ude00"), (" ", " "), ("x ", "x "), ("あ", "\\u3042"), ("#", "#"), ("a.", "a.")] {
      let (plain, w) = (unit.repeat(n), escaped.repeat(n));
      for (pre, post) in [("", ""), ("q", ""), ("", "z")] {
        let value = format!("{}{}{}", pre, plain, post);
        let q = format!("\"{}{}{}\"", pre, w, post);
        case(ctx, "quoted", n, &format!("a = {}\nb = 1", q), &obj(&[("a", s(&value)), ("b", int(1))]));
        case(ctx, "array of quoted", n, &format!("a = [{}, {}]", q, q), &obj(&[("a", V::Arr(vec![s(&value), s(&value)]))]));
        case(ctx, "quoted key", n, &format!("{} : 1", q), &V::Obj([(value.clone(), int(1))].into()));
      }
      if !unit.contains(['"', '\\', '\n', '#']) && unit != " " {
        let t = format!("x{}", plain);
        case(ctx, "unquoted", n, &format!("a = {}\nb = 1", t), &obj(&[("a", s(t.trim())), ("b", int(1))]));
        case(ctx, "unquoted", n, &format!("a = [{}, {}]", t, t), &obj(&[("a", V::Arr(vec![s(t.trim()), s(t.trim())]))]));
      }
    }
    let k = name("key", n % 26).repeat(n);
    case(ctx, "key", n, &format!("{} = 1", k), &V::Obj([(k.clone(), int(1))].into()));
    if n <= 28 {
      for d in ["1", "9", "5", "7"] {
        let digits = d.repeat(n);
        let v: i128 = digits.parse().unwrap();
        case(ctx, "integer", n, &format!("a = {}", digits), &obj(&[("a", int(v))]));
        case(ctx, "negative integer", n, &format!("a = [-{}]", digits), &obj(&[("a", V::Arr(vec![int(-v)]))]));
        case(ctx, "fraction", n, &format!("a = 0.{}", digits), &obj(&[("a", num(v, n as u32))]));
      }
    }
  }
}

pub fn h06(ctx: &mut Ctx) {
  for n in sizes(ctx, 30, 1000) {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    let members: Vec<(String, V)> = (0..n).map(|k| (name("k", k), int(k as i128))).collect();
    let want = V::Obj(members.iter().cloned().collect());
    let inner = V::Obj([("o".to_string(), want.clone())].into());
    for eq in ["=", " : "] {
      let m: Vec<String> = (0..n).map(|k| format!("{}{}{}", name("k", k), eq, k)).collect();
      for sep in [",", "\n", ", # c\n", "\n\n", " // c\n", "\r\n"] {
        let t = m.join(sep);
        case(ctx, "root members", n, &t, &want);
        case(ctx, "root members in braces", n, &format!("{{{}}}", t), &want);
        case(ctx, "members", n, &format!("o {{ {}\n}}", t), &inner);
      }
    }
    let items: Vec<String> = (0..n).map(|k| if k % 5 == 0 { format!("w{}", k) } else { k.to_string() }).collect();
    let arr = V::Arr((0..n).map(|k| if k % 5 == 0 { s(&format!("w{}", k)) } else { int(k as i128) }).collect());
    for sep in [",", " , ", ",\n", " # c\n,", "\n,\n"] {
      case(ctx, "array", n, &format!("o = [{}]", items.join(sep)), &V::Obj([("o".to_string(), arr.clone())].into()));
      case(ctx, "array in array", n, &format!("o = [[{}], [{}],\n]", items.join(sep), items.join(sep)), &V::Obj([("o".to_string(), V::Arr(vec![arr.clone(), arr.clone()]))].into()));
    }
    // one gap that is large
    let (a, b) = (obj(&[("a", int(1)), ("b", V::Arr(vec![int(2), s("w")]))]), obj(&[("a", obj(&[("b", int(1))])), ("c", int(2))]));
    for unit in [" ", "\t", "\n", "# c\n", "// }\n", "\r\n", " \n", "#\n", "# c\r", "// }\r\n"] {
      let g = unit.repeat(n);
      let line = unit.contains(['\n', '\r']);
      case(ctx, "edge", n, &format!("{}a=1,b=[2,w]", g), &a);
      case(ctx, "edge", n, &format!("a=1,b=[2,w]{}", g), &a);
      case(ctx, "edge", n, &format!("{}{{a=1,b=[2,w]}}{}", g, g), &a);
      if unit == " " || unit == "\t" {
        case(ctx, "around the sign", n, &format!("a{}={}1\nb{}:{}[2,w]", g, g, g, g), &a);
      }
      case(ctx, "comma", n, &format!("a=1{},b=[2{},w]", if line { format!(" {}", g) } else { g.clone() }, if line { format!(" {}", g) } else { g.clone() }), &a);
      case(ctx, "behind the comma", n, &format!("a=1,{}b=[2,{}w]", g, g), &a);
      case(ctx, "brackets", n, &format!("a=1,b=[{}2,w {}]", g, g), &a);
      case(ctx, "braces", n, &format!("a {{{}b = 1 {}}}\nc = 2", g, g), &b);
      if line {
        case(ctx, "lines", n, &format!("a {{ b = 1 }} {}c = 2", g), &b);
      }
    }
    let remark = "x}\"[ ".repeat(n);
    for (mark, end) in [("#", "\n"), ("//", "\n"), ("#", "\r"), ("//", "\r\n")] {
      case(ctx, "comment", n, &format!("{}{}{}a = 1 {}{}{}b = [2, {}{}{} w]", mark, remark, end, mark, remark, end, mark, remark, end), &a);
    }
  }
}

/// Documents for H07, each printed and read again.
pub fn documents(ctx: &Ctx) -> Vec<(usize, String)> {
  let mut out = vec![];
  for n in sizes(ctx, 20, 1100) {
    let m: Vec<String> = (0..n).map(|k| format!("{} = {}", name("k", k), ["1", "w x", "\"q\\\"\"", "5 m", "[]", "{}", "-0.5", "null"][k % 8])).collect();
    let items: Vec<&str> = (0..n).map(|k| ["1", "w x", "\"q\\\\\"", "5 m", "[]", "{ a = 1 }", "-0.5", "null", "1", "1"][k % 10]).collect();
    out.push((n, m.join("\n")));
    out.push((n, format!("o {{ {} }}", m.join(", "))));
    out.push((n, format!("o = [{}]", items.join(", "))));
    for unit in ["x", "\\\"", "\\\\", "\\n", "é", " ", "\\u0001"] {
      out.push((n, format!("a = \"{}\"", unit.repeat(n))));
      out.push((n, format!("\"{}\" = 1", unit.repeat(n))));
    }
    out.push((n, format!("a = x{}", " y".repeat(n))));
    out.push((n, format!("{} = 1", (0..n.min(60)).map(|k| name("p", k)).collect::<Vec<_>>().join("."))));
    if n <= 28 {
      out.push((n, format!("a = [{}, -0.{}, {}s]", "9".repeat(n), "3".repeat(n), "1".repeat(n.min(9)))));
    }
  }
  out
}

/// Long rows and chains of included files.
pub fn h08(ctx: &mut Ctx, write: &dyn Fn(&str, &[u8]) -> String, load_file: &dyn Fn(&str) -> Result<V, String>) {
  let none = BTreeMap::new();
  for n in sizes(ctx, 12, ctx.pick(65, 130)) {
    for form in 0..4 {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      // document k of the row
      let doc = |k: usize| -> Doc {
        let mut d: Doc = vec![(key(k), Rhs::Int(k as i128)), ("last", Rhs::Int(k as i128)), ("o", Rhs::Obj(vec![(["x", "y", "z"][k % 3], Rhs::Int(k as i128))]))];
        if form % 2 == 1 && k > 0 {
          d.push((leak(name("r", k)), Rhs::Ref(key(k - 1), false)));
          d.push((leak(name("s", k)), Rhs::Ref(key(k + 1), true)));
        }
        d
      };
      let whole: Doc = (0..n).flat_map(doc).collect();
      let want = meaning(&whole, &none);
      ctx.state(h64(&("included files", n, form)));
      ctx.steps(n as u64);
      ctx.case(
        || format!("{} files, {}{}", n, if form < 2 { "in a row" } else { "each including the next" }, if form % 2 == 1 { ", referring to each other" } else { "" }),
        || {
          let names: Vec<String> = (0..n).map(|k| write(&format!("row{}.conf", k), text(&doc(k), &STYLES[k % 4]).as_bytes())).collect();
          let inc = |f: &str| format!("include file(\"{}\")", f);
          let top = if form < 2 {
            write("top.conf", names.iter().map(|f| inc(f)).collect::<Vec<_>>().join("\n").as_bytes())
          } else {
            // link k includes what comes before it and then document k
            let mut below: Option<String> = None;
            for (k, f) in names.iter().enumerate() {
              let t = below.iter().map(|b| format!("{}\n", inc(b))).collect::<String>() + &inc(f);
              below = Some(write(&format!("link{}.conf", k), t.as_bytes()));
            }
            below.unwrap()
          };
          match (&want, load_file(&top)) {
            (Outcome::Value(w), Ok(g)) if *w == g => {}
            (Outcome::Unresolvable, Err(e)) if e.starts_with("rejected") => {}
            (w, g) => return Err(format!("expected {:?}, got {:?}", w, g)),
          }
          match (&want, load_view(&inc(&top))) {
            (Outcome::Value(w), Ok(g)) if *w == g => Ok(h64(&g)),
            (w, g) => Err(format!("included once more: expected {:?}, got {:?}", w, g)),
          }
        },
      );
    }
  }
}
