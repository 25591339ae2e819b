//! H05 (no crash), H06 (layout), H07 (printing) and H08 (files).

use crate::docs::{self, meaning, text, Doc, Outcome, Rhs, STYLES};
use crate::view::*;
use mc_core::{for_words, guarded, h64, Ctx};
use oni_comb_hocon_rs::model::ConfigFactory;
use std::collections::BTreeMap;
use std::fs;
use std::path::PathBuf;

// ------------------------------------------------------------------ H05

const TOKENS: [&str; 30] = [
  "a", "=", ":", "{", "}", "[", "]", ",", "\n", " ", "\"", "'", "1", "-", ".", "e", "true", "null", "${", "?", "#", "//", "include ", "file(", "5s", "\\", "é", "a.b", "\u{0}", "${a}",
];

fn crash(ctx: &mut Ctx, t: &str) {
  ctx.state(h64(t));
  ctx.steps(1);
  ctx.case(
    || format!("load {:?}", t),
    || {
      let v = no_crash(t)?;
      Ok(h64(&v.is_some()))
    },
  );
}

fn token_words(ctx: &mut Ctx, prefix: &str, alphabet: &[&str], max: usize, suffix: &str) {
  let mut n = 0u64;
  let mut mine = false;
  for_words(alphabet, max, &mut |w, _| {
    if n % 64 == 0 {
      mine = ctx.mine() && !ctx.full();
    }
    n += 1;
    if mine {
      crash(ctx, &format!("{}{}{}", prefix, w, suffix));
    }
  });
}

pub fn h05(ctx: &mut Ctx) {
  for v in ["a", "b", "x", "zz"] {
    std::env::remove_var(v);
  }
  token_words(ctx, "", &TOKENS, ctx.pick(3, 4), "");
  let few = ["a", "=", "{", "}", "[", "]", ",", "\n", "${", "1"];
  token_words(ctx, "", &few, ctx.pick(5, 6), "");
  for (pre, post) in [("a = ", ""), ("a { ", " }"), ("a = [", "]"), ("a = 1, ", ""), ("a = \"", "\""), ("a = ${", "}"), ("a = 1\na = ", "\n"), ("include file(\"", "\")"), ("# ", "\na = 1"), ("{ a = ", " }")] {
    token_words(ctx, pre, &TOKENS, ctx.pick(2, 3), post);
  }
  // escapes in quotes, whole and cut
  let escapes = ["\\ud800", "\\udc00", "\\ud83d", "\\u0041", "\\u", "d83", "\\u00", "x", "\\", "\\n", "\\x", "\"", "é"];
  for (pre, post) in [("a = \"", "\""), ("a = '", "'"), ("\"", "\" = 1"), ("a = ", ""), ("a = [\"", "\"]")] {
    token_words(ctx, pre, &escapes, ctx.pick(3, 4), post);
  }
  // every truncation, deletion, duplication and replacement in the sample documents
  let subst = ["=", "{", "}", "[", "]", ",", "\"", "$", "#", "\n", " ", "1", "a", "\\", "'", ".", "?", ":", "é"];
  for d in docs::samples() {
    for st in &STYLES {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let t = text(&d, st);
      let c: Vec<char> = t.chars().collect();
      for i in 0..=c.len() {
        let (l, r): (String, String) = (c[..i].iter().collect(), c[i..].iter().collect());
        crash(ctx, &l);
        crash(ctx, &r);
        for x in subst {
          crash(ctx, &format!("{}{}{}", l, x, r));
          if i < c.len() {
            let r1: String = c[i + 1..].iter().collect();
            crash(ctx, &format!("{}{}{}", l, x, r1));
            if ctx.thorough() {
              for y in subst {
                crash(ctx, &format!("{}{}{}{}", l, x, y, r1));
              }
            }
          }
        }
        if i < c.len() {
          let r1: String = c[i + 1..].iter().collect();
          crash(ctx, &format!("{}{}", l, r1));
        }
        for j in i + 1..c.len().min(i + 6) {
          let r1: String = c[j..].iter().collect();
          crash(ctx, &format!("{}{}", l, r1));
        }
      }
    }
  }
  // numbers and durations nobody can hold
  for n in ["9", "99999999999999999999", "79228162514264337593543950335", "79228162514264337593543950336", "1e28", "1e29", "1e400", "1e-400", "0.00000000000000000000000000000000001", "1e99999999999999999999", "-1", "-0.5"] {
    for u in ["", "ns", "us", "ms", "s", "m", "h", "d", " days", "x"] {
      if ctx.mine() {
        crash(ctx, &format!("a = {}{}", n, u));
        crash(ctx, &format!("a = [{}{}, 1]", n, u));
      }
    }
  }
  // nesting, closed and not
  for depth in [1usize, 2, 5, 10, 20, 40, 64] {
    for (open, close) in [("[", "]"), ("{a=", "}"), ("{a", "}"), ("{", "}"), ("a{", "}"), ("a=[", "]"), ("[{a=", "}]"), ("${", "}"), ("\"", "\"")] {
      if !ctx.mine() {
        continue;
      }
      for missing in [0, 1, depth] {
        let t = format!("{}{}", open.repeat(depth), close.repeat(depth - missing.min(depth)));
        crash(ctx, &t);
        crash(ctx, &format!("a = {}", t));
        crash(ctx, &format!("a = {}1{}", open.repeat(depth), close.repeat(depth - missing.min(depth))));
      }
    }
  }
  // cycles of references
  let keys = ["a", "b", "c"];
  let rhs: Vec<String> = ["${a}", "${b}", "${c}", "${?a}", "${?b}", "${?c}", "{ x = ${a} }", "{ x = ${b.x} }", "[${a}]", "[${?b}]", "{ x = ${a.x} }", "1", "${a.x}", "${?a.x.x}"].iter().map(|s| s.to_string()).collect();
  for x in &rhs {
    for y in &rhs {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      for z in &rhs {
        crash(ctx, &format!("{} = {}\n{} = {}\n{} = {}", keys[0], x, keys[1], y, keys[2], z));
        crash(ctx, &format!("a = {}\na = {}\nb = {}", x, y, z));
      }
    }
  }
  files(ctx);
}

// ------------------------------------------------------------------ files

struct Dir(PathBuf);

impl Dir {
  fn new(tag: &str) -> Dir {
    let d = std::env::temp_dir().join(format!("mc-hocon-{}-{}", tag, std::process::id()));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).expect("scratch directory");
    Dir(d)
  }
  fn file(&self, name: &str, content: &[u8]) -> String {
    let p = self.0.join(name);
    fs::write(&p, content).expect("scratch file");
    p.to_str().unwrap().to_string()
  }
}

impl Drop for Dir {
  fn drop(&mut self) {
    let _ = fs::remove_dir_all(&self.0);
  }
}

fn files(ctx: &mut Ctx) {
  let dir = Dir::new("h05");
  let dirname = dir.0.to_str().unwrap().to_string();
  let unreadable = vec![
    ("missing", format!("{}/nothing.conf", dirname)),
    ("directory", dirname.clone()),
    ("missing directory", format!("{}/no/such.conf", dirname)),
    ("empty name", String::new()),
    ("nul in the name", "a\0b".to_string()),
    ("not UTF-8", dir.file("latin.conf", b"a = \"\xff\xfe\"")),
    ("cut UTF-8", dir.file("cut.conf", b"a = \xe3\x81")),
    ("through a file", format!("{}/x", dir.file("f.conf", b"a=1"))),
  ];
  for (what, name) in &unreadable {
    if !ctx.mine() {
      continue;
    }
    ctx.state(h64(what));
    ctx.case(
      || format!("load file: {}", what),
      || match guarded(|| ConfigFactory::new().load_from_file(name)) {
        Err(p) => Err(format!("panicked: {}", p)),
        Ok(Ok(c)) => Err(format!("an unreadable file gave the configuration {}", c)),
        Ok(Err(_)) => Ok(1),
      },
    );
  }
  for d in docs::samples() {
    for st in &STYLES {
      if !ctx.mine() {
        continue;
      }
      let t = text(&d, st);
      for end in 0..=t.len() {
        if !t.is_char_boundary(end) {
          continue;
        }
        ctx.steps(1);
        ctx.case(
          || format!("load file with {:?}", &t[..end]),
          || {
            let name = dir.file("t.conf", t[..end].as_bytes());
            let from_text = no_crash(&t[..end])?;
            let from_file = match guarded(|| ConfigFactory::new().load_from_file(&name)).map_err(|p| format!("panicked: {}", p))? {
              Ok(c) => view(c.to_config_value()).ok(),
              Err(_) => None,
            };
            if from_text == from_file {
              Ok(h64(&from_file.is_some()))
            } else {
              Err(format!("the file reads {:?}, its text {:?}", from_file, from_text))
            }
          },
        );
      }
    }
  }
}

// ------------------------------------------------------------------ H08

fn load_file(name: &str) -> Result<V, String> {
  let c = guarded(|| ConfigFactory::new().load_from_file(name)).map_err(|p| format!("panicked: {}", p))?.map_err(|e| format!("rejected: {:?}", e))?;
  view(c.to_config_value())
}

/// The documents in this order, as if they were one.
fn joined(docs: &[&Doc]) -> Doc {
  docs.iter().flat_map(|d| d.iter().cloned()).collect()
}

fn agrees(want: &Outcome, got: Result<V, String>, how: &str) -> Result<u64, String> {
  match (want, got) {
    (Outcome::Value(w), Ok(g)) if *w == g => Ok(h64(&g)),
    (Outcome::Unresolvable, Err(e)) | (Outcome::Open, Err(e)) if e.starts_with("rejected") => Ok(1),
    (Outcome::Open, Ok(_)) => Ok(2),
    (w, g) => Err(format!("{}: expected {:?}, got {:?}", how, w, g)),
  }
}

/// Documents that need or change what another one defines.
fn parts() -> Vec<Doc> {
  let r = |p, o| Rhs::Ref(p, o);
  vec![
    vec![("b", r("a", false))],
    vec![("a", r("a", true)), ("o.x", r("o", true))],
    vec![("a", r("c", true)), ("c", Rhs::Int(7))],
    vec![("c", r("b", false)), ("b", Rhs::Lit("w"))],
    vec![("a", Rhs::Obj(vec![("b", r("o.x", false))]))],
    vec![("o", Rhs::Int(3)), ("o", Rhs::Obj(vec![("q", Rhs::Int(2))]))],
    vec![("o.x", Rhs::Int(4)), ("o.q.z", Rhs::Lit("null"))],
    vec![("a", Rhs::Int(5)), ("a.b", Rhs::Arr(vec![r("o.x", true), r("c", false)]))],
    vec![("o", r("a", false)), ("o.y", Rhs::Int(6))],
  ]
}

pub fn h08(ctx: &mut Ctx) {
  for v in ["a", "b", "c", "o", "zz", "o.x"] {
    std::env::remove_var(v);
  }
  let dir = Dir::new("h08");
  let none = BTreeMap::new();
  crate::large::h08(ctx, &|n, b| dir.file(n, b), &load_file);
  let mut samples = docs::samples();
  samples.extend(parts());
  let gaps = ["", " ", "\n", "# c\n", "\n\n// c\n  "];
  for (n, d) in samples.iter().enumerate() {
    for (m, e) in samples.iter().enumerate() {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let alone = meaning(d, &none);
      let other = meaning(e, &none);
      let both = meaning(&joined(&[d, e]), &none);
      let thrice = meaning(&joined(&[d, e, d]), &none);
      let nothing = Outcome::Value(V::Obj(BTreeMap::new()));
      for (i, st) in STYLES.iter().enumerate() {
        let fa = dir.file("a.conf", text(d, st).as_bytes());
        let fb = dir.file("b.conf", text(e, &STYLES[(i + 1) % 4]).as_bytes());
        let ia = format!("include file(\"{}\")", fa);
        let ib = format!("include file(\"{}\")", fb);
        let missing = format!("include file(\"{}/nothing.conf\")", dir.0.display());
        let mut layouts = vec![];
        for g in gaps {
          for h in gaps {
            if m == 0 {
              layouts.push((format!("{}{}{}", g, ia, h), &alone));
            }
            layouts.push((format!("{}{}{}{}", g, ia, if h.is_empty() { "\n" } else { h }, ib), &both));
          }
          layouts.push((format!("{}{}{}", missing, g, ib), &other));
          layouts.push((format!("{}{}{}", ia, g, missing), &alone));
        }
        layouts.push((format!("{}\n{}\n{}", ia, ib, ia), &thrice));
        layouts.push((missing.clone(), &nothing));
        for (t, want) in layouts {
          ctx.state(h64(&(n, m, i, &t.replace(dir.0.to_str().unwrap(), ""))));
          ctx.steps(2);
          ctx.case(
            || format!("documents {} and {}, style {}: {:?}", n, m, i, t.replace(dir.0.to_str().unwrap(), "DIR")),
            || {
              agrees(want, load_view(&t), "parse_from_string")?;
              // and one file further away
              let top = dir.file("top.conf", t.as_bytes());
              for u in [format!("include file(\"{}\")", top), format!("include file(\"{}\")\n\n", top)] {
                agrees(want, load_view(&u), "included twice over")?;
              }
              agrees(want, load_file(&top), "load_from_file")
            },
          );
        }
      }
    }
  }
  named(ctx, &dir);
  sized(ctx, &dir);
  // files of every kind, alone, beside others, and behind a file in between
  let d = &dir;
  let base = d.0.to_str().unwrap().to_string();
  let o = |k, v| Rhs::Obj(vec![(k, v)]);
  let good: Vec<(&str, Doc)> = vec![
    ("x", vec![("x", Rhs::Int(1)), ("o", o("p", Rhs::Int(1)))]),
    ("y", vec![("y", Rhs::Int(2)), ("x", Rhs::Int(2)), ("o.q", Rhs::Int(2))]),
    ("scalar o", vec![("o", Rhs::Int(3))]),
    ("refers", vec![("z", Rhs::Ref("x", true)), ("o.r", Rhs::Ref("o.p", true))]),
    ("needs", vec![("n", Rhs::Ref("o.p", false))]),
    ("self", vec![("x", Rhs::Ref("x", true)), ("o", Rhs::Ref("o", true))]),
  ];
  let mut kinds: Vec<(&str, String, Option<Doc>)> = vec![("missing", format!("{}/nothing.conf", base), Some(vec![]))];
  for (i, (what, doc)) in good.into_iter().enumerate() {
    kinds.push((what, d.file(&format!("good{}.conf", i), text(&doc, &STYLES[i % 4]).as_bytes()), Some(doc)));
  }
  kinds.push(("directory", base.clone(), None));
  for (i, (what, bytes)) in [
    ("not UTF-8", &b"x = \"\xff\""[..]),
    ("cut UTF-8", b"x = 1 # \xe3\x81"),
    ("not UTF-8 at the end", b"x = 1\n\x80"),
    ("unclosed", b"x = {"),
    ("no value", b"x ="),
    ("text behind", b"{ x = 1 } }"),
  ]
  .into_iter()
  .enumerate()
  {
    kinds.push((what, d.file(&format!("bad{}.conf", i), bytes), None));
  }
  for (ka, fa, da) in &kinds {
    for (kb, fb, db) in &kinds {
      if !ctx.mine() {
        continue;
      }
      for (kc, fc, dc) in &kinds {
        for shape in 0..4 {
          let inc = |f: &str| format!("include file(\"{}\")", f);
          ctx.state(h64(&("kinds", ka, kb, kc, shape)));
          ctx.steps(3);
          ctx.case(
            || format!("included files {}, {}, {}; shape {}", ka, kb, kc, shape),
            || {
              let t = match shape {
                0 => format!("{}\n{}\n{}", inc(fa), inc(fb), inc(fc)),
                1 => format!("{}\n{}", inc(fa), inc(&d.file("m1.conf", format!("{}\n{}", inc(fb), inc(fc)).as_bytes()))),
                2 => format!("{} {}", inc(&d.file("m1.conf", format!("{} {}", inc(fa), inc(fb)).as_bytes())), inc(fc)),
                _ => inc(&d.file("m2.conf", inc(&d.file("m1.conf", format!("{} {} {}", inc(fa), inc(fb), inc(fc)).as_bytes())).as_bytes())),
              };
              let want = match (da, db, dc) {
                (Some(a), Some(b), Some(c)) => meaning(&joined(&[a, b, c]), &none),
                _ => Outcome::Unresolvable,
              };
              let top = d.file("top.conf", t.as_bytes());
              agrees(&want, load_view(&t), "parse_from_string")?;
              agrees(&want, load_file(&top), "load_from_file")
            },
          );
        }
      }
    }
  }
  // graphs of including files: every file includes any of the others, in every combination
  let files = ctx.pick(3usize, 4);
  let per = 1usize << files;
  let total = per.pow(files as u32);
  for g in 0..total {
    if g % 16 == 0 {
      ctx.mine();
    }
    if !ctx.last_mine() || ctx.full() {
      continue;
    }
    // file i includes the files of mask[i]; without any it holds x_i
    let masks: Vec<usize> = (0..files).map(|i| g / per.pow(i as u32) % per).collect();
    ctx.state(h64(&("graph", &masks)));
    ctx.steps(files as u64);
    ctx.case(
      || format!("include graph {:?}", masks),
      || {
        let names: Vec<String> = (0..files).map(|i| dir.0.join(format!("g{}.conf", i)).to_str().unwrap().to_string()).collect();
        for i in 0..files {
          let t = if masks[i] == 0 {
            format!("k{} = {}\nlast = {}", ["a", "b", "c", "d"][i], i, i)
          } else {
            (0..files).filter(|j| masks[i] >> j & 1 == 1).map(|j| format!("include file(\"{}\")", names[j])).collect::<Vec<_>>().join("\n")
          };
          fs::write(&names[i], t).expect("scratch file");
        }
        fn expand(i: usize, masks: &[usize], open: &mut Vec<usize>) -> Option<V> {
          if open.contains(&i) {
            return None;
          }
          if masks[i] == 0 {
            return Some(obj(&[(["ka", "kb", "kc", "kd"][i], int(i as i128)), ("last", int(i as i128))]));
          }
          open.push(i);
          let mut v = V::Obj(BTreeMap::new());
          for j in 0..masks.len() {
            if masks[i] >> j & 1 == 1 {
              match expand(j, masks, open) {
                Some(w) => v = docs::merge(Some(v), w),
                None => {
                  open.pop();
                  return None;
                }
              }
            }
          }
          open.pop();
          Some(v)
        }
        match (expand(0, &masks, &mut vec![]), load_file(&names[0])) {
          (Some(w), Ok(g)) if w == g => Ok(h64(&g)),
          (None, Err(e)) if !e.starts_with("panicked") => Ok(1),
          (w, g) => Err(format!("expected {:?}, got {:?}", w, g)),
        }
      },
    );
  }
}

/// Included files whose names are made of characters that mean something elsewhere.
fn named(ctx: &mut Ctx, dir: &Dir) {
  let back = std::env::current_dir().expect("working directory");
  std::env::set_current_dir(&dir.0).expect("scratch directory");
  let _ = fs::create_dir_all(dir.0.join(" d (1) "));
  let chars = ["a", " ", ".", "#", "{", "}", "(", ")", "$", "'", "=", ",", ":", "\u{e9}", "\\", "\t", "?", "~", "%", "\u{3042}"];
  let want = obj(&[("a", int(1)), ("b", int(2)), ("z", int(3))]);
  let (before, behind) = (dir.file("before-file.conf", b"a = 1, b = 0"), dir.file("behind-file.conf", b"z = 3"));
  let around = |f: &str| format!("include file(\"{}\")\ninclude file(\"{}\")\ninclude file(\"{}\")", before, f, behind);
  let max = ctx.pick(2usize, 3);
  for len in 1..=max {
    for n in 0..chars.len().pow(len as u32) {
      if n % 16 == 0 {
        ctx.mine();
      }
      if !ctx.last_mine() || ctx.full() {
        continue;
      }
      let name: String = (0..len).map(|k| chars[n / chars.len().pow(k as u32) % chars.len()]).collect();
      if name == "." || name == ".." {
        continue;
      }
      ctx.state(h64(&("name", &name)));
      ctx.steps(4);
      ctx.case(
        || format!("included file named {:?}", name),
        || {
          let body = b"b = 2";
          let plain = dir.file(&name, body);
          let deep = dir.file(&format!(" d (1) /{}", name), body);
          let got = (|| {
            for f in [plain.as_str(), name.as_str(), &deep, &format!(" d (1) /{}", name), &format!("./{}", name)] {
              let t = around(f);
              match load_view(&t) {
                Ok(g) if g == want => {}
                g => return Err(format!("{:?}: expected {:?}, got {:?}", f, want, g)),
              }
              let inner = dir.file("inner-file.conf", t.as_bytes());
              match load_view(&format!("include file(\"{}\")", inner)) {
                Ok(g) if g == want => {}
                g => return Err(format!("{:?} included by an included file: expected {:?}, got {:?}", f, want, g)),
              }
              match load_file(f) {
                Ok(g) if g == obj(&[("b", int(2))]) => {}
                g => return Err(format!("{:?} loaded: got {:?}", f, g)),
              }
            }
            Ok(1)
          })();
          // the next name starts without it
          let _ = fs::remove_file(&plain);
          let _ = fs::remove_file(&deep);
          let t = around(&plain);
          match (got, load_view(&t)) {
            (Err(e), _) => Err(e),
            (Ok(h), Ok(g)) if g == obj(&[("a", int(1)), ("b", int(0)), ("z", int(3))]) => Ok(h),
            (_, g) => Err(format!("without the file: got {:?}", g)),
          }
        },
      );
    }
  }
  let _ = std::env::set_current_dir(back);
}

/// Included files of many sizes: nothing of them is left out.
fn sized(ctx: &mut Ctx, dir: &Dir) {
  let mut sizes: Vec<usize> = (0..=40).map(|k| k * 3).collect();
  for p in [128usize, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] {
    sizes.extend([p - 2, p - 1, p, p + 1, p + 2]);
  }
  if ctx.thorough() {
    sizes.extend((120..700).chain([131_071, 131_073, 262_145, 1_048_575, 1_048_577]));
  }
  for n in sizes {
    for unit in ["x", "\u{e9}", "\u{3042}", "\n", " ", "k = 1\n"] {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      // members at both ends and a file of n bytes in all, as far as the unit allows
      let (head, tail) = ("a = 1 #", "\nz = 3");
      let room = n.saturating_sub(head.len() + tail.len() + 1);
      let (mark, times) = if unit.trim().is_empty() || unit.len() > 3 { ("\n", room.min(20_000) / unit.len()) } else { ("", room / unit.len()) };
      if unit.len() > 3 && times > 1500 {
        continue;
      }
      let body = format!("{}{}{}{}{}", head, mark, unit.repeat(times), if mark.is_empty() { "" } else { "#" }, tail);
      let mut want = vec![("a", int(1)), ("z", int(3))];
      if unit.starts_with('k') && times > 0 {
        want.push(("k", int(1)));
      }
      let want = obj(&want);
      // filled up in the comment in front, so that multi-byte characters fall on every offset
      let body = format!("{}{}", "#".repeat(n.saturating_sub(body.len() + 1).min(5)), if n > body.len() { format!("\n{}", body) } else { body });
      ctx.state(h64(&("size", n, unit)));
      ctx.steps(body.len() as u64);
      ctx.case(
        || format!("file of {} bytes with {:?}", body.len(), unit),
        || {
          let f = dir.file("sized.conf", body.as_bytes());
          match load_file(&f) {
            Ok(g) if g == want => {}
            g => return Err(format!("loaded: expected {:?}, got {:?}", want, g)),
          }
          let other = dir.file("other.conf", b"z = 0, q = 0");
          match load_view(&format!("include file(\"{}\")\ninclude file(\"{}\")", other, f)) {
            Ok(g) if g == docs::merge(Some(obj(&[("q", int(0))])), want.clone()) => Ok(1),
            g => Err(format!("included: expected {:?} and q, got {:?}", want, g)),
          }
        },
      );
    }
  }
}

// ------------------------------------------------------------------ H06

#[derive(Clone, Debug, PartialEq)]
enum Gap {
  /// around a punctuation mark
  Free,
  /// between members: at least a comma or a line break
  Sep,
  /// between elements of an array
  Comma,
  /// between a key and its object: ':' or '=' or nothing
  Op,
  Eq,
  /// start or end of the text
  Edge,
  /// inside of brackets without members
  Inner,
  /// behind the last member or element: an optional comma
  Last,
}

enum Piece {
  T(String),
  G(Gap),
}

fn pieces_rhs(r: &Rhs, out: &mut Vec<Piece>) {
  match r {
    Rhs::Lit(t) => {
      out.push(Piece::T(t.to_string()));
    }
    Rhs::Int(n) => out.push(Piece::T(n.to_string())),
    Rhs::Ref(p, o) => out.push(Piece::T(format!("${{{}{}}}", if *o { "?" } else { "" }, p))),
    Rhs::Arr(a) => {
      out.push(Piece::T("[".into()));
      out.push(Piece::G(Gap::Inner));
      for (i, x) in a.iter().enumerate() {
        if i > 0 {
          out.push(Piece::G(Gap::Comma));
        }
        pieces_rhs(x, out);
      }
      if !a.is_empty() {
        out.push(Piece::G(Gap::Last));
      }
      out.push(Piece::T("]".into()));
    }
    Rhs::Obj(m) => {
      out.push(Piece::T("{".into()));
      out.push(Piece::G(Gap::Inner));
      pieces(m, out);
      if !m.is_empty() {
        out.push(Piece::G(Gap::Last));
      }
      out.push(Piece::T("}".into()));
    }
  }
}

fn pieces(m: &[(&'static str, Rhs)], out: &mut Vec<Piece>) {
  for (i, (k, r)) in m.iter().enumerate() {
    if i > 0 {
      out.push(Piece::G(Gap::Sep));
    }
    out.push(Piece::T(k.to_string()));
    out.push(Piece::G(if matches!(r, Rhs::Obj(_)) { Gap::Op } else { Gap::Eq }));
    pieces_rhs(r, out);
  }
}

fn choices(g: &Gap) -> Vec<&'static str> {
  let layout = ["", " ", "\t", "\n", "\r\n", " \n\n ", "# c\n", " // c\n", "\n# c = 1\n\n  // } d\n\n", " #\n#\n", "\n//,\n # [ \n", "\r", "# c\r", "\r\n// }\r\n\r"];
  match g {
    Gap::Free | Gap::Inner => layout.to_vec(),
    Gap::Edge => layout.to_vec(),
    Gap::Sep => vec!["\n", ",", " , ", ",\n", "\n,", "\r\n", "\n\n  \n", " # c\n", " // c\n", ", # c\n # d\n", "\n\n# c\n\n# d\n,\n# e\n\n", " #\n", "\t\n\t", " # c\r", " // c\r\n", ", # c\r// d\r "],
    Gap::Comma => vec![",", ", ", " ,", "\n,\n", " , # c\n", " // c\n , \n# d\n\n", ",\r\n\t", " #\n,", " # c\r,"],
    Gap::Eq => vec!["=", ":", " = ", " : ", "\t=\t", "=\n", " = # c\n", " : // c\n\n  # d\n ", " = # c\r"],
    Gap::Op => vec![" ", "", "=", ":", " = ", " : ", "\n", " = # c\n", " # c\n ", "=\n\n", " # c\r", " = // c\r\n"],
    Gap::Last => vec!["", " ", "\n", ",", " , ", ",\n", "\n,", " # c\n", ", // c\n", "\n# c\n\n# d\n\n", " // c\n,#d\n", " # c\r", " // c\r\n,"],
  }
}

pub fn h06(ctx: &mut Ctx) {
  for v in ["a", "b", "zz"] {
    std::env::remove_var(v);
  }
  arrays(ctx);
  crate::large::h06(ctx);
  let none = BTreeMap::new();
  let changes = ctx.pick(2, 3);
  for d in docs::samples() {
    let want = match meaning(&d, &none) {
      Outcome::Value(v) => v,
      o => panic!("sample document means {:?}", o),
    };
    for braces in [false, true] {
      let mut p = vec![Piece::G(Gap::Edge)];
      if braces {
        p.push(Piece::T("{".into()));
        p.push(Piece::G(Gap::Free));
      }
      pieces(&d, &mut p);
      if braces {
        p.push(Piece::G(Gap::Last));
        p.push(Piece::T("}".into()));
        p.push(Piece::G(Gap::Edge));
      } else {
        // the root without braces ends like a member list
        p.push(Piece::G(Gap::Last));
      }
      let gaps: Vec<usize> = p.iter().enumerate().filter(|(_, x)| matches!(x, Piece::G(_))).map(|(i, _)| i).collect();
      let opts: Vec<Vec<&str>> = gaps.iter().map(|i| if let Piece::G(g) = &p[*i] { choices(g) } else { vec![] }).collect();
      let base = vec![0usize; gaps.len()];
      layouts(ctx, &p, &opts, &base, 0, changes.min(if gaps.len() > 8 { 2 } else { 3 }), &want, &d);
      // comments of every kind of content, one at a time
      if ctx.mine() && !ctx.full() {
        comments(ctx, &p, &opts, &want);
      }
      // the same choice everywhere
      if ctx.mine() {
        for k in 0..16 {
          let c: Vec<usize> = opts.iter().map(|o| k % o.len()).collect();
          check_layout(ctx, &p, &opts, &c, &want);
        }
      }
    }
  }
}

const REMARKS: [&str; 18] = ["}", "{", "]", "[", ",", "=", "#", "//", "/", "*/", "\"", "'", "\\", "${", "é", " ", "a", "include file(\"x\")"];

fn remarks(max: usize) -> Vec<String> {
  let mut out = vec![String::new()];
  let mut level = out.clone();
  for _ in 0..max {
    level = level.iter().flat_map(|l| REMARKS.iter().map(move |r| format!("{}{}", l, r))).collect();
    out.extend(level.clone());
  }
  // every other character that ends no line
  for c in (0u32..0x100).chain([0x2028, 0x2029, 0x3000, 0xfeff, 0xfffd, 0x1f600]).filter_map(char::from_u32) {
    if c != '\n' && c != '\r' && !REMARKS.contains(&c.to_string().as_str()) {
      out.push(c.to_string());
      out.push(format!("x{}= y", c));
    }
  }
  out
}

/// Every remark at every gap that takes a comment.
fn comments(ctx: &mut Ctx, p: &[Piece], opts: &[Vec<&str>], want: &V) {
  for text in remarks(ctx.pick(2, 3)) {
    for g in 0..opts.len() {
      // a gap takes the remark where it takes a plain comment
      for k in 0..opts[g].len() {
        let o = opts[g][k];
        if !(o == "# c\n" || o == " // c\n" || o == " # c\n" || o == " , # c\n" || o == " = # c\n" || o == ", // c\n" || o == " # c\n ") {
          continue;
        }
        let mine = o.replace(" c", &text);
        let mut opts: Vec<Vec<&str>> = opts.iter().map(|x| vec![x[0]]).collect();
        opts[g] = vec![&mine];
        check_layout(ctx, p, &opts, &vec![0; opts.len()], want);
      }
    }
  }
}

/// Every array of a few elements, under the separators an array takes.
fn arrays(ctx: &mut Ctx) {
  let elements: [(&str, V); 11] = [
    ("null", V::Null),
    ("true", V::Bool(true)),
    ("1", int(1)),
    ("0", int(0)),
    ("w", s("w")),
    ("\"\"", s("")),
    ("'q,]'", s("q,]")),
    ("3s", V::Dur(3_000_000_000)),
    ("[]", V::Arr(vec![])),
    ("{}", V::Obj(BTreeMap::new())),
    ("{x=1}", obj(&[("x", int(1))])),
  ];
  let max = ctx.pick(4, 5);
  for len in 0..=max {
    let total = elements.len().pow(len as u32);
    for n in 0..total {
      if n % 32 == 0 {
        ctx.mine();
      }
      if !ctx.last_mine() || ctx.full() {
        continue;
      }
      let mut k = n;
      let mut texts = vec![];
      let mut values = vec![];
      for _ in 0..len {
        let (t, v) = &elements[k % elements.len()];
        texts.push(*t);
        values.push(v.clone());
        k /= elements.len();
      }
      let want = obj(&[("a", V::Arr(values.clone()))]);
      let seps: &[(&str, &str, &str)] = if len == max { &[("[", ",", "]")] } else { &[("[", ",", "]"), ("[ ", " , ", " ]"), ("[\n", ",\n", "\n]"), ("[# c\n", " # c\n,# d\n", ", ]")] };
      for (l, sep, r) in seps {
        if len == 0 && r.starts_with(',') {
          continue;
        }
        let t = format!("a = {}{}{}", l, texts.join(sep), r);
        ctx.state(h64(&t));
        ctx.steps(len as u64);
        ctx.case(|| format!("array {:?}", t), || expect(&t, &want));
        if len < 3 {
          let t = format!("a {}{}{}\nb = 1", l, texts.join(sep), r);
          let want = obj(&[("a", V::Arr(values.clone())), ("b", int(1))]);
          ctx.case(|| format!("array {:?}", t), || expect(&t, &want));
        }
      }
    }
  }
}

fn check_layout(ctx: &mut Ctx, p: &[Piece], opts: &[Vec<&str>], c: &[usize], want: &V) {
  let mut t = String::new();
  let mut g = 0;
  for x in p {
    match x {
      Piece::T(s) => t.push_str(s),
      Piece::G(_) => {
        t.push_str(opts[g][c[g]]);
        g += 1;
      }
    }
  }
  ctx.state(h64(&t));
  ctx.steps(g as u64);
  ctx.case(|| format!("layout {:?}", t), || expect(&t, want));
}

fn layouts(ctx: &mut Ctx, p: &[Piece], opts: &[Vec<&str>], base: &[usize], from: usize, left: usize, want: &V, d: &Doc) {
  if from == 0 {
    check_layout(ctx, p, opts, base, want);
  }
  if left == 0 || ctx.full() {
    return;
  }
  for g in from..opts.len() {
    for k in 1..opts[g].len() {
      let mut c = base.to_vec();
      c[g] = k;
      let top = from == 0 && base.iter().all(|x| *x == 0);
      if top && !ctx.mine() {
        continue;
      }
      check_layout(ctx, p, opts, &c, want);
      layouts(ctx, p, opts, &c, g + 1, left - 1, want, d);
    }
  }
}

// ------------------------------------------------------------------ H07

fn reprint(ctx: &mut Ctx, t: &str) {
  ctx.state(h64(t));
  ctx.steps(2);
  ctx.case(
    || format!("print {:?}", t),
    || {
      let c = match ConfigFactory::new().parse_from_string(t) {
        Ok(c) => c,
        Err(_) => return Ok(0),
      };
      // a negative duration has no unsigned span to view; its values are compared all the same
      let v = view(c.to_config_value());
      let printed = c.to_string();
      let again = load(&printed).map_err(|e| format!("printed as {:?}: {}", printed, e))?;
      let w = view(again.to_config_value());
      if v != w {
        return Err(format!("printed as {:?}, which reads {:?} instead of {:?}", printed, w, v));
      }
      if again.to_config_value() != c.to_config_value() {
        return Err(format!("printed as {:?}, the value read back is not equal", printed));
      }
      Ok(h64(&v))
    },
  );
}

pub fn h07(ctx: &mut Ctx) {
  let mut values: Vec<String> = ["1", "-1", "0.5", "-12.75", "1e3", "2.50", "79228162514264337593543950335", "true", "false", "null", "w", "word two", "[]", "{}", "\"\"", "''", "truex", "1.0", "http://x/", "x=y"].iter().map(|s| s.to_string()).collect();
  for u in ["ns", "us", "ms", "s", "m", "h", "d", " days", " nanos"] {
    values.push(format!("5{}", u));
    values.push(format!("1.5{}", u));
  }
  for c in (0x20u32..0x180).chain([0x3042, 0x1f600, 0x2028]) {
    let c = char::from_u32(c).unwrap();
    if c == '"' || c == '\\' {
      values.push(format!("\"\\{}\"", c));
    } else {
      values.push(format!("\"{}\"", c));
      values.push(format!("\"x{}\"", c));
    }
  }
  for e in ["\\n", "\\t", "\\r", "\\b", "\\f", "\\\\", "\\\"", "\\/", "\\u0000", "\\u001f", "\\u007f", "\\ud83d\\ude00", "\\ud800"] {
    values.push(format!("\"{}\"", e));
    values.push(format!("\"x{}y{}\"", e, e));
  }
  for v in values.clone() {
    if !ctx.mine() {
      continue;
    }
    for t in [format!("a = {}", v), format!("[{}, {}]", v, v), format!("a.b = [{}]\nc = {}", v, v), format!("a {{ b {{ c = {} }} }}", v)] {
      reprint(ctx, &t);
    }
    if v.starts_with('"') {
      reprint(ctx, &format!("{} = 1", v));
      reprint(ctx, &format!("a {{ {} = {}, b = 1 }}", v, v));
    }
  }
  // every value nested in every shape
  let shapes: [&dyn Fn(&str) -> String; 6] = [&|x| format!("[{}]", x), &|x| format!("[{}, 1]", x), &|x| format!("{{ a = {} }}", x), &|x| format!("{{ a = 1, b = {} }}", x), &|x| format!("[[], {}]", x), &|x| format!("{{ \"k 1\" : {}, c = {{}} }}", x)];
  let leaves = ["1", "w", "\"a\\\"b\"", "5 m", "null", "[]", "{}", "-0.5"];
  let depth = ctx.pick(3, 5);
  let mut level: Vec<String> = leaves.iter().map(|s| s.to_string()).collect();
  for _ in 0..depth {
    level = level.iter().flat_map(|x| shapes.iter().map(move |f| f(x))).collect();
    for (i, x) in level.iter().enumerate() {
      if i % 16 == 0 {
        ctx.mine();
      }
      if ctx.last_mine() && !ctx.full() {
        reprint(ctx, x);
        reprint(ctx, &format!("a = {}", x));
      }
    }
  }
  // strings over the letters that matter to the printer
  let mut n = 0u64;
  let mut mine = false;
  for_words(&["x", "\\\"", "\\\\", "\\n", "\\r", " ", "#", "'", "${", "\\u0022", "\\u005c", "}"], ctx.pick(4, 5), &mut |w, _| {
    if n % 64 == 0 {
      mine = ctx.mine() && !ctx.full();
    }
    n += 1;
    if mine {
      reprint(ctx, &format!("a = \"{}\"", w));
      reprint(ctx, &format!("\"{}\" = [\"{}\"]", w, w));
    }
  });
  for d in docs::samples() {
    for st in &STYLES {
      if ctx.mine() {
        reprint(ctx, &text(&d, st));
      }
    }
  }
  for (_, t) in crate::large::documents(ctx) {
    if ctx.mine() && !ctx.full() {
      reprint(ctx, &t);
    }
  }
  // whatever else loads
  let max = ctx.pick(3, 4);
  for_words(&["a", "=", "{", "}", "[", "]", ",", "\n", "\"", "1", "5s", "true", " ", "-", "."], max, &mut |w, _| {
    if n % 64 == 0 {
      mine = ctx.mine() && !ctx.full();
    }
    n += 1;
    if mine {
      reprint(ctx, w);
      reprint(ctx, &format!("a = {}", w));
    }
  });
}
