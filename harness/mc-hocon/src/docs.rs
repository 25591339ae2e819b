//! H02 (definitions override or merge) and H03 (substitutions): every document of a bounded space against a
//! denotational reference, which knows only the ordered list of definitions.

use crate::view::*;
use mc_core::{h64, Ctx};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Rhs {
  Lit(&'static str),
  /// an integer literal, different for each definition
  Int(i128),
  Obj(Vec<(&'static str, Rhs)>),
  Arr(Vec<Rhs>),
  Ref(&'static str, bool),
}

pub type Doc = Vec<(&'static str, Rhs)>;

#[derive(Clone, Debug)]
enum Leaf {
  Val(V),
  Object,
  Arr(Vec<Rhs>),
  Ref(&'static str, bool),
}

#[derive(Debug, PartialEq)]
pub enum Outcome {
  Value(V),
  /// a required reference leads nowhere
  Unresolvable,
  /// the statement does not say (mutual cycles, overridden broken references)
  Open,
}

enum Stop {
  Unresolvable(usize),
  Open,
}

fn lit(t: &str) -> V {
  match t {
    "null" => V::Null,
    "true" => V::Bool(true),
    "false" => V::Bool(false),
    "\"s\"" => s("s"),
    "\"\"" => s(""),
    "\" \"" => s(" "),
    "0" => int(0),
    "0s" => V::Dur(0),
    "\"null\"" => s("null"),
    "w" => s("w"),
    "2.5" => num(25, 1),
    "3s" => V::Dur(3_000_000_000),
    "[]" => V::Arr(vec![]),
    t => panic!("literal {}", t),
  }
}

fn flatten(prefix: &[String], path: &str, rhs: &Rhs, out: &mut Vec<(Vec<String>, Leaf)>) {
  let mut p = prefix.to_vec();
  // "+" stands for a dot within a quoted key
  p.extend(path.split('.').map(|k| k.replace('+', ".")));
  match rhs {
    Rhs::Lit(t) => out.push((p, Leaf::Val(lit(t)))),
    Rhs::Int(n) => out.push((p, Leaf::Val(int(*n)))),
    Rhs::Arr(a) => out.push((p, Leaf::Arr(a.clone()))),
    Rhs::Ref(r, o) => out.push((p, Leaf::Ref(r, *o))),
    Rhs::Obj(m) => {
      out.push((p.clone(), Leaf::Object));
      for (k, v) in m {
        flatten(&p, k, v, out);
      }
    }
  }
}

struct Eval<'a> {
  defs: Vec<(Vec<String>, Leaf)>,
  env: &'a BTreeMap<String, String>,
  /// what a reference of a definition leads to, once found: it does not depend on how one got there
  known: std::cell::RefCell<std::collections::HashMap<(usize, String), Option<V>>>,
}

fn prefix_of(a: &[String], b: &[String]) -> bool {
  a.len() <= b.len() && a == &b[..a.len()]
}

fn set(root: &mut V, path: &[String], f: &dyn Fn(Option<V>) -> V) {
  if !matches!(root, V::Obj(_)) {
    *root = V::Obj(BTreeMap::new());
  }
  if let V::Obj(m) = root {
    if path.len() == 1 {
      let old = m.remove(&path[0]);
      m.insert(path[0].clone(), f(old));
    } else {
      set(m.entry(path[0].clone()).or_insert(V::Obj(BTreeMap::new())), &path[1..], f);
    }
  }
}

pub fn merge(old: Option<V>, new: V) -> V {
  match (old, new) {
    (Some(V::Obj(mut l)), V::Obj(r)) => {
      for (k, v) in r {
        let o = l.remove(&k);
        l.insert(k, merge(o, v));
      }
      V::Obj(l)
    }
    (_, v) => v,
  }
}

impl<'a> Eval<'a> {
  fn build(&self, of: Option<&[String]>, busy: &mut Vec<usize>) -> Result<V, Stop> {
    let mut root = V::Obj(BTreeMap::new());
    for (i, (q, leaf)) in self.defs.iter().enumerate() {
      if let Some(r) = of {
        if !prefix_of(q, r) && !prefix_of(r, q) {
          continue;
        }
      }
      if busy.contains(&i) {
        // a definition that refers to what its own key meant before
        if busy.last() == Some(&i) && of.map_or(false, |r| prefix_of(q, r)) && matches!(leaf, Leaf::Ref(..)) {
          break;
        }
        return Err(Stop::Open);
      }
      let value = match leaf {
        Leaf::Val(v) => Some(v.clone()),
        Leaf::Object => Some(V::Obj(BTreeMap::new())),
        Leaf::Ref(r, o) => self.reference(i, r, *o, busy)?,
        Leaf::Arr(a) => {
          let mut out = vec![];
          for x in a {
            out.extend(self.element(i, x, busy)?);
          }
          Some(V::Arr(out))
        }
      };
      if let Some(v) = value {
        set(&mut root, q, &|old| merge(old, v.clone()));
      } else if q.len() > 1 {
        // the enclosing object exists all the same
        set(&mut root, &q[..q.len() - 1], &|old| merge(old, V::Obj(BTreeMap::new())));
      }
    }
    Ok(root)
  }
  fn reference(&self, i: usize, r: &str, optional: bool, busy: &mut Vec<usize>) -> Result<Option<V>, Stop> {
    let path: Vec<String> = r.split('.').map(String::from).collect();
    let known = self.known.borrow().get(&(i, r.to_string())).cloned();
    let v = match known {
      Some(v) => v,
      None => {
        busy.push(i);
        let root = self.build(Some(&path), busy);
        busy.pop();
        let v = at(&root?, r).cloned().or_else(|| self.env.get(r).map(|t| s(t)));
        self.known.borrow_mut().insert((i, r.to_string()), v.clone());
        v
      }
    };
    if v.is_none() && !optional {
      return Err(Stop::Unresolvable(i));
    }
    Ok(v)
  }
  fn element(&self, i: usize, x: &Rhs, busy: &mut Vec<usize>) -> Result<Option<V>, Stop> {
    Ok(match x {
      Rhs::Lit(t) => Some(lit(t)),
      Rhs::Int(n) => Some(int(*n)),
      Rhs::Ref(r, o) => self.reference(i, r, *o, busy)?,
      Rhs::Arr(a) => {
        let mut out = vec![];
        for y in a {
          out.extend(self.element(i, y, busy)?);
        }
        Some(V::Arr(out))
      }
      Rhs::Obj(m) => {
        let mut root = V::Obj(BTreeMap::new());
        for (k, y) in m {
          let p: Vec<String> = k.split('.').map(String::from).collect();
          if let Some(v) = self.element(i, y, busy)? {
            set(&mut root, &p, &|old| merge(old, v.clone()));
          }
        }
        Some(root)
      }
    })
  }
}

pub fn meaning(doc: &Doc, env: &BTreeMap<String, String>) -> Outcome {
  let mut defs = vec![];
  for (p, r) in doc {
    flatten(&[], p, r, &mut defs);
  }
  let e = Eval { defs, env, known: Default::default() };
  match e.build(None, &mut vec![]) {
    Ok(v) => Outcome::Value(v),
    Err(Stop::Open) => Outcome::Open,
    Err(Stop::Unresolvable(i)) => {
      let q = &e.defs[i].0;
      let overridden = e.defs.iter().enumerate().any(|(j, (p, l))| j != i && if matches!(l, Leaf::Object) { j > i && p == q } else { prefix_of(p, q) || prefix_of(q, p) });
      if overridden {
        Outcome::Open
      } else {
        Outcome::Unresolvable
      }
    }
  }
}

#[derive(Clone, Copy)]
pub struct Style {
  pub braces: bool,
  pub sep: &'static str,
  pub eq: &'static str,
  /// nothing in front of an object
  pub bare: bool,
  /// dotted keys written as nested objects
  pub nested: bool,
}

fn rhs_text(r: &Rhs, st: &Style) -> String {
  match r {
    Rhs::Lit(t) => t.to_string(),
    Rhs::Int(n) => n.to_string(),
    Rhs::Ref(p, o) => format!("${{{}{}}}", if *o { "?" } else { "" }, p),
    Rhs::Arr(a) => format!("[{}]", a.iter().map(|x| rhs_text(x, st)).collect::<Vec<_>>().join(", ")),
    Rhs::Obj(m) => format!("{{ {} }}", members(m, st)),
  }
}

fn member(p: &str, r: &Rhs, st: &Style) -> String {
  if st.nested {
    if let Some((head, tail)) = p.split_once('.') {
      return format!("{}{}{{ {} }}", head, if st.bare { " " } else { st.eq }, member(tail, r, st));
    }
  }
  let quoted = format!("\"{}\"", p.replace('+', "."));
  let p = if p.contains('+') { &quoted } else { p };
  match r {
    Rhs::Obj(_) if st.bare => format!("{} {}", p, rhs_text(r, st)),
    _ => format!("{}{}{}", p, st.eq, rhs_text(r, st)),
  }
}

fn members(m: &[(&'static str, Rhs)], st: &Style) -> String {
  m.iter().map(|(p, r)| member(p, r, st)).collect::<Vec<_>>().join(st.sep)
}

pub fn text(doc: &Doc, st: &Style) -> String {
  let t = members(doc, st);
  if st.braces {
    format!("{{{}}}", t)
  } else {
    t
  }
}

pub const STYLES: [Style; 4] = [
  Style { braces: false, sep: "\n", eq: "=", bare: false, nested: false },
  Style { braces: true, sep: ", ", eq: " : ", bare: true, nested: true },
  Style { braces: false, sep: " , ", eq: " = ", bare: true, nested: false },
  Style { braces: true, sep: "\n", eq: ":", bare: false, nested: true },
];

fn all_paths(letters: &[&str], depth: usize) -> Vec<String> {
  let mut out: Vec<String> = vec![];
  let mut level: Vec<String> = letters.iter().map(|l| l.to_string()).collect();
  for _ in 0..depth {
    out.extend(level.clone());
    level = level.iter().flat_map(|p| letters.iter().map(move |l| format!("{}.{}", p, l))).collect();
  }
  out
}

pub fn run(ctx: &mut Ctx, doc: &Doc, env: &BTreeMap<String, String>, styles: &[Style], paths: &[String]) {
  let want = meaning(doc, env);
  for st in styles {
    let t = text(doc, st);
    ctx.state(h64(&(&t, env)));
    ctx.steps(doc.len() as u64);
    ctx.case(
      || format!("document {:?} env {:?}", t, env),
      || match &want {
        Outcome::Value(v) => {
          let c = load(&t)?;
          let got = view(c.to_config_value())?;
          if got != *v {
            return Err(format!("expected {:?}, got {:?}", v, got));
          }
          check_paths(&c, v, paths)?;
          Ok(h64(v))
        }
        Outcome::Unresolvable => match no_crash(&t)? {
          None => Ok(1),
          Some(v) => Err(format!("a required reference leads nowhere, but the document read as {:?}", v)),
        },
        Outcome::Open => {
          no_crash(&t)?;
          Ok(2)
        }
      },
    );
  }
}

/// Every sequence of up to n definitions out of the catalogue.
fn documents(ctx: &mut Ctx, catalogue: &dyn Fn(i128) -> Doc, n: usize, f: &mut dyn FnMut(&mut Ctx, &Doc)) {
  let size = catalogue(0).len();
  for len in 1..=n {
    let total = size.pow(len as u32 - 1);
    for outer in 0..total {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let mut doc: Doc = vec![];
      let mut o = outer;
      for i in 0..len - 1 {
        doc.push(catalogue(i as i128 + 1)[o % size].clone());
        o /= size;
      }
      for last in catalogue(len as i128) {
        doc.push(last);
        f(ctx, &doc);
        doc.pop();
      }
    }
  }
}

fn definitions(i: i128, paths: &[&'static str], wide: bool) -> Doc {
  let n = Rhs::Int(10 * i);
  let m = Rhs::Int(10 * i + 1);
  let mut shapes = vec![
    n.clone(),
    Rhs::Obj(vec![]),
    Rhs::Obj(vec![("a", n.clone())]),
    Rhs::Obj(vec![("b", n.clone())]),
    Rhs::Obj(vec![("a.b", n.clone())]),
    Rhs::Arr(vec![n.clone(), Rhs::Obj(vec![("a", m.clone())])]),
  ];
  if wide {
    shapes.push(Rhs::Lit("null"));
    shapes.push(Rhs::Obj(vec![("a", n.clone()), ("b", m.clone()), ("a", Rhs::Obj(vec![("b", m.clone())]))]));
    shapes.push(Rhs::Obj(vec![("a", Rhs::Obj(vec![("a", n.clone())])), ("b.a", n), ("a.b", m)]));
    shapes.push(Rhs::Lit("\"s\""));
  }
  paths.iter().flat_map(|p| shapes.iter().map(move |r| (*p, r.clone()))).collect()
}

fn blank_values(i: i128, paths: &[&'static str]) -> Doc {
  let mut shapes: Vec<Rhs> = ["null", "false", "true", "\"\"", "\" \"", "0", "0s", "\"null\"", "[]"].into_iter().map(Rhs::Lit).collect();
  shapes.push(Rhs::Obj(vec![]));
  shapes.push(Rhs::Obj(vec![("b", Rhs::Lit("null"))]));
  shapes.push(Rhs::Obj(vec![("b", Rhs::Lit("\"\""))]));
  shapes.push(Rhs::Obj(vec![("b", Rhs::Obj(vec![])), ("a", Rhs::Int(i))]));
  shapes.push(Rhs::Arr(vec![Rhs::Lit("null"), Rhs::Lit("\"\""), Rhs::Obj(vec![])]));
  paths.iter().flat_map(|p| shapes.iter().map(move |r| (*p, r.clone()))).collect()
}

pub fn h02(ctx: &mut Ctx) {
  crate::large::h02(ctx);
  let none = BTreeMap::new();
  let paths = all_paths(&["a", "b"], 3);
  documents(ctx, &|i| definitions(i, &["a", "b", "a.a", "a.b", "a.b.a"], true), 2, &mut |ctx, d| run(ctx, d, &none, &STYLES, &paths));
  let n = ctx.pick(3, 4);
  documents(ctx, &|i| definitions(i, &["a", "a.b", "b", "a.b.a"], false), n, &mut |ctx, d| {
    if d.len() > 2 {
      run(ctx, d, &none, &STYLES[..2], &paths)
    }
  });
  if ctx.thorough() {
    documents(ctx, &|i| definitions(i, &["a", "b", "a.a", "a.b", "a.b.a"], true), 3, &mut |ctx, d| {
      if d.len() > 2 {
        run(ctx, d, &none, &STYLES[2..], &paths)
      }
    });
  }
  // values that could be taken for none
  documents(ctx, &|i| blank_values(i, &["a", "b", "a.a", "a.b"]), 2, &mut |ctx, d| run(ctx, d, &none, &STYLES[1..], &paths));
  let n = ctx.pick(3, 4);
  documents(ctx, &|i| blank_values(i, &["a", "a.b"]), n, &mut |ctx, d| {
    if d.len() > 2 {
      run(ctx, d, &none, &STYLES[..1], &paths)
    }
  });
  // a dot within a quoted key
  let n = ctx.pick(4, 5);
  documents(
    ctx,
    &|i| {
      let o = |m| Rhs::Obj(m);
      let int = || Rhs::Int(i);
      vec![
        ("a+b", int()),
        ("a+b", o(vec![("b", int())])),
        ("a.b", int()),
        ("a", o(vec![("b", o(vec![("b", int())]))])),
        ("a", o(vec![("a+b", int()), ("b", int())])),
        ("a+b", o(vec![("a+b", int()), ("a.b", Rhs::Int(-i))])),
        ("+", int()),
      ]
    },
    n,
    &mut |ctx, d| run(ctx, d, &none, if d.len() < 4 { &STYLES } else { &STYLES[1..2] }, &paths),
  );
  // many definitions of few keys
  let n = ctx.pick(5, 6);
  documents(
    ctx,
    &|i| vec![("a", Rhs::Int(i)), ("a.b", Rhs::Int(i)), ("a", Rhs::Obj(vec![("b", Rhs::Int(i)), ("c", Rhs::Int(-i))])), ("a.c", Rhs::Arr(vec![Rhs::Int(i)])), ("d", Rhs::Lit("w"))],
    n,
    &mut |ctx, d| {
      if d.len() > 3 {
        run(ctx, d, &none, &STYLES[1..3], &paths)
      }
    },
  );
}

fn references(i: i128, small: bool) -> Doc {
  let r = |p, o| Rhs::Ref(p, o);
  if small {
    let vs = [Rhs::Int(i), r("a", false), r("b", true), r("c", false), r("E", true), r("c.x", true), Rhs::Obj(vec![("x", r("b", false))])];
    return ["a", "b", "c"].iter().flat_map(|p| vs.iter().map(move |v| (*p, v.clone()))).collect();
  }
  let vs = [
    Rhs::Int(i),
    r("a", false),
    r("a", true),
    r("b", false),
    r("b", true),
    r("o.x", false),
    r("o.x", true),
    r("o", false),
    r("E", false),
    r("E", true),
    r("zz", true),
    Rhs::Obj(vec![("x", Rhs::Int(i)), ("y", r("b", true))]),
    Rhs::Obj(vec![("x", r("a", false))]),
    Rhs::Arr(vec![r("b", false), Rhs::Int(i), r("zz", true), Rhs::Arr(vec![r("o.x", true)])]),
  ];
  let mut out: Doc = ["a", "b", "o.x", "o"].iter().flat_map(|p| vs.iter().map(move |v| (*p, v.clone()))).collect();
  out.push(("E", Rhs::Int(i)));
  out
}

/// whether a document depends on the environment
fn asks(r: &Rhs, name: &str) -> bool {
  match r {
    Rhs::Ref(p, _) => *p == name,
    Rhs::Obj(m) => m.iter().any(|(_, r)| asks(r, name)),
    Rhs::Arr(m) => m.iter().any(|r| asks(r, name)),
    _ => false,
  }
}

fn with_env(on: bool) -> BTreeMap<String, String> {
  if on {
    std::env::set_var("E", "env value");
    [("E".to_string(), "env value".to_string())].into()
  } else {
    std::env::remove_var("E");
    BTreeMap::new()
  }
}

pub fn h03(ctx: &mut Ctx) {
  for v in ["a", "b", "c", "d", "e", "f", "o", "x", "o.x", "zz", "c.x"] {
    std::env::remove_var(v);
  }
  let mut paths = all_paths(&["a", "b", "o"], 1);
  for p in ["a.x", "b.x", "o.x", "o.y", "o.x.x", "a.x.x", "E", "zz", "a.y"] {
    paths.push(p.to_string());
  }
  let through: Vec<String> = paths.iter().cloned().chain(["c", "c.x", "c.y", "E.x", "E.y", "b.y"].map(String::from)).collect();
  // values that could be taken for none, and what an environment variable may hold
  for value in [None, Some(""), Some(" "), Some("true"), Some("null"), Some("1"), Some("5s"), Some("${a}"), Some("a = 1\n"), Some("\"q\""), Some(" é "), Some("[1]")] {
    let env: BTreeMap<String, String> = value.iter().map(|v| ("E".to_string(), v.to_string())).collect();
    match value {
      Some(v) => std::env::set_var("E", v),
      None => std::env::remove_var("E"),
    }
    documents(
      ctx,
      &|i| {
        let mut d = blank_values(i, &["a"]);
        if value.is_some() {
          d.truncate(2);
        }
        for p in ["a", "b", "c"] {
          for q in ["a", "E", "a.b"] {
            d.push((p, Rhs::Ref(q, false)));
            d.push((p, Rhs::Ref(q, true)));
          }
        }
        d.push(("b", Rhs::Arr(vec![Rhs::Ref("a", true), Rhs::Ref("E", true), Rhs::Ref("a", false)])));
        d.push(("b", Rhs::Obj(vec![("x", Rhs::Ref("a", true)), ("y", Rhs::Ref("E", true))])));
        d.push(("E", Rhs::Lit("\"\"")));
        d
      },
      ctx.pick(2, 3),
      &mut |ctx, d| run(ctx, d, &env, &STYLES[..1], &paths),
    );
  }
  for on in [false, true] {
    let env = with_env(on);
    crate::large::h03(ctx, &env);
    // with the variable set, large documents only if they ask for it
    let thorough = ctx.thorough();
    let wanted = |d: &Doc| thorough || !on || d.len() < 3 || d.iter().any(|(_, r)| asks(r, "E"));
    documents(ctx, &|i| references(i, false), 3, &mut |ctx, d| {
      if !wanted(d) {
        return;
      }
      let styles = if d.len() < 3 { &STYLES[..] } else { &STYLES[1..2] };
      run(ctx, d, &env, styles, &paths)
    });
    documents(
      ctx,
      &|i| {
        let r = |p, o| Rhs::Ref(p, o);
        vec![
          ("a.b", Rhs::Int(i)),
          ("a+b", Rhs::Int(i)),
          ("a+b", r("a.b", false)),
          ("a+b", r("a.b", true)),
          ("a+b", Rhs::Obj(vec![("b", r("a.b", false)), ("c", Rhs::Int(i))])),
          ("a", Rhs::Obj(vec![("a+b", r("a.b", false)), ("b", Rhs::Int(i))])),
          ("a", r("c", false)),
          ("c", Rhs::Obj(vec![("b", r("a.b", true)), ("a+b", Rhs::Int(i))])),
        ]
      },
      3,
      &mut |ctx, d| run(ctx, d, &env, &STYLES[..2], &paths),
    );
    // the variable's name defined in the document, and references that go through it
    documents(
      ctx,
      &|i| {
        let r = |p, o| Rhs::Ref(p, o);
        vec![
          ("E", Rhs::Obj(vec![("x", Rhs::Int(i)), ("y", r("E", true))])),
          ("E", Rhs::Obj(vec![("x", r("b", true))])),
          ("E.x", Rhs::Int(i)),
          ("b", r("E", false)),
          ("b", r("E", true)),
          ("c", r("b", false)),
          ("a", r("b.x", false)),
          ("a", r("c.x", true)),
          ("a", r("E.x", false)),
        ]
      },
      ctx.pick(3, 4),
      &mut |ctx, d| run(ctx, d, &env, &STYLES[..1], &through),
    );
    let n = ctx.pick(4, 5);
    documents(ctx, &|i| references(i, true), n, &mut |ctx, d| {
      if d.len() > 2 && (d.len() < 5 || on) && wanted(d) {
        run(ctx, d, &env, &STYLES[..1], &paths)
      }
    });
    // paths of every length and of keys of every kind
    let names = ["ab", "A", "x-y", "_z", "-", "Zz_9".trim_end_matches('9'), "null", "include"];
    for len in 1..=6usize {
      for first in 0..names.len() {
        if !ctx.mine() || ctx.full() {
          continue;
        }
        for step in 0..names.len() {
          let keys: Vec<&str> = (0..len).map(|i| names[(first + i * step) % names.len()]).collect();
          let path: &'static str = Box::leak(keys.join(".").into_boxed_str());
          let beyond: &'static str = Box::leak(format!("{}.no", path).into_boxed_str());
          let beside: &'static str = Box::leak(format!("{}x", path).into_boxed_str());
          let mut watch = paths.clone();
          watch.extend([path.to_string(), beyond.to_string(), beside.to_string()]);
          for value in [Rhs::Int(5), Rhs::Obj(vec![("x", Rhs::Int(5)), ("q.r", Rhs::Lit("w"))]), Rhs::Arr(vec![Rhs::Int(5), Rhs::Lit("null")])] {
            for o in [false, true] {
              let to = Rhs::Ref(path, o);
              let uses = [to.clone(), Rhs::Arr(vec![to.clone(), Rhs::Int(0), to.clone()]), Rhs::Obj(vec![("x", to.clone())]), Rhs::Ref(beyond, true), Rhs::Ref(beside, o)];
              for u in uses {
                for at_key in ["b", "o.x", "o.x.y"] {
                  run(ctx, &vec![(path, value.clone()), (at_key, u.clone())], &env, &STYLES[..2], &watch);
                  run(ctx, &vec![(at_key, u.clone()), (path, value.clone())], &env, &STYLES[2..], &watch);
                }
              }
            }
          }
        }
      }
    }
    // chains of references in every order of their definitions
    let keys = ["a", "b", "c", "d", "e", "f"];
    let n = ctx.pick(5, 6);
    let mut order: Vec<usize> = (0..n).collect();
    loop {
      if ctx.mine() && !ctx.full() {
        for end in [Rhs::Int(7), Rhs::Obj(vec![("x", Rhs::Int(7))]), Rhs::Arr(vec![Rhs::Int(7)]), Rhs::Ref("E", false), Rhs::Ref("zz", true), Rhs::Ref("zz", false)] {
          for optional in 0..1 << (n - 1) {
            let doc: Doc = order
              .iter()
              .map(|i| (keys[*i], if *i + 1 == n { end.clone() } else { Rhs::Ref(keys[i + 1], optional >> i & 1 == 1) }))
              .collect();
            run(ctx, &doc, &env, &STYLES[..1], &paths);
          }
        }
      }
      if !next_permutation(&mut order) {
        break;
      }
    }
  }
}

fn next_permutation(p: &mut [usize]) -> bool {
  let n = p.len();
  let mut i = n - 1;
  while i > 0 && p[i - 1] >= p[i] {
    i -= 1;
  }
  if i == 0 {
    return false;
  }
  let mut j = n - 1;
  while p[j] <= p[i - 1] {
    j -= 1;
  }
  p.swap(i - 1, j);
  p[i..].reverse();
  true
}

/// Documents the other checks work on.
pub fn samples() -> Vec<Doc> {
  let r = |p, o| Rhs::Ref(p, o);
  vec![
    vec![("a", Rhs::Int(1))],
    vec![("a", Rhs::Lit("true")), ("b", Rhs::Lit("null"))],
    vec![("a", Rhs::Lit("w")), ("b", Rhs::Lit("w"))],
    vec![("a", Rhs::Lit("\"s\"")), ("b", Rhs::Lit("2.5")), ("c", Rhs::Lit("3s"))],
    vec![("a.b", Rhs::Int(1)), ("a.c", Rhs::Lit("w"))],
    vec![("a", Rhs::Obj(vec![("b", Rhs::Int(1)), ("c", Rhs::Lit("false"))]))],
    vec![("a", Rhs::Arr(vec![Rhs::Int(1), Rhs::Lit("w"), Rhs::Int(2)]))],
    vec![("a", Rhs::Arr(vec![])), ("b", Rhs::Obj(vec![]))],
    vec![("a", Rhs::Arr(vec![Rhs::Obj(vec![("b", Rhs::Int(1))]), Rhs::Arr(vec![Rhs::Lit("3s"), Rhs::Lit("null")])]))],
    vec![("a", Rhs::Obj(vec![("b", Rhs::Obj(vec![("c", Rhs::Lit("\"s\""))]))])), ("a.b.d", Rhs::Int(2))],
    vec![("a", Rhs::Int(1)), ("b", r("a", false)), ("c", r("zz", true))],
    vec![("a", Rhs::Int(1)), ("a", r("zz", true)), ("b", Rhs::Arr(vec![r("a", false), r("a", true)]))],
    vec![("o", Rhs::Obj(vec![("x", Rhs::Lit("w")), ("y", r("o.x", false))])), ("o", Rhs::Obj(vec![("x", Rhs::Lit("3s"))]))],
  ]
}
