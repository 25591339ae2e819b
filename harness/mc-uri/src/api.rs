//! U04 and U06: histories of operations on query and path values.

use crate::model;
use crate::text::word_space;
use mc_core::{h64, Ctx};
use oni_comb_uri_rs::models::path::Path;
use oni_comb_uri_rs::models::query::Query;
use oni_comb_uri_rs::models::uri::Uri;

/// Texts a builder may be given: cases, blanks, escapes, separators, signs, digits, other scripts.
pub const SPELLINGS: [&str; 40] = [
  "", "a", "A", "ab", "aB", " ", "a ", " a", "a b", "+", "%20", "%61", "%41", "%2f", "%2F", "é", "É", "e\u{301}", "ß", "日本", "\t", "a\n", "0", "00", "1", "01", "-1", "null", "true", "a.b", "a[]", "/", "?", "=", "&", "a=", "=a", "a&b", "#", "'\"\\",
];

type Items = Vec<(String, Option<String>)>;

fn lookup<'a>(items: &'a Items, k: &str) -> Option<Vec<&'a String>> {
  let hits: Vec<_> = items.iter().filter(|(x, _)| x == k).collect();
  if hits.is_empty() {
    None
  } else {
    Some(hits.into_iter().filter_map(|(_, v)| v.as_ref()).collect())
  }
}

fn text_of(items: &Items) -> String {
  items.iter().map(|(k, v)| v.as_ref().map_or(k.clone(), |v| format!("{}={}", k, v))).collect::<Vec<_>>().join("&")
}

fn same(q: &Query, items: &Items) -> Result<(), String> {
  for k in ["a", "b", "c", "", "zz", "A", "a ", "%61", "é", "É"].into_iter().chain(items.iter().map(|x| x.0.as_str())) {
    let got = q.get_param(k.to_string());
    let want = lookup(items, k);
    if got != want {
      return Err(format!("get_param({:?}) is {:?}, expected {:?} (parameters {:?})", k, got, want, items));
    }
  }
  let map = q.params();
  let mut keys: Vec<&String> = items.iter().map(|i| &i.0).collect();
  keys.sort();
  keys.dedup();
  if map.len() != keys.len() {
    return Err(format!("params() has {} keys, expected {:?}", map.len(), keys));
  }
  for k in keys {
    if map.get(k) != lookup(items, k).as_ref() {
      return Err(format!("params()[{:?}] is {:?}, expected {:?}", k, map.get(k), lookup(items, k)));
    }
  }
  let t = text_of(items);
  if q.as_string() != t || q.to_string() != t {
    return Err(format!("prints as {:?} / {:?}, expected {:?}", q.as_string(), q.to_string(), t));
  }
  if *q != Query::new(items.clone()) {
    return Err(format!("is not equal to the same parameters built at once: {:?}", q));
  }
  let mut longer = items.clone();
  longer.push(("a".into(), None));
  if *q == Query::new(longer) || (!items.is_empty() && *q == Query::new(items[1..].to_vec())) {
    return Err(format!("is equal to a query with one parameter more or less: {:?}", q));
  }
  Ok(())
}

pub fn u04(ctx: &mut Ctx) {
  let s = String::from;
  let pool: Vec<(String, Option<String>)> = vec![(s("a"), None), (s("a"), Some(s("1"))), (s("b"), Some(s(""))), (s("b"), Some(s("1"))), (s(""), None)];
  let mut inits: Vec<Items> = vec![vec![]];
  for x in &pool {
    inits.push(vec![x.clone()]);
    for y in &pool {
      inits.push(vec![x.clone(), y.clone()]);
    }
  }
  let adds: Vec<(String, Option<String>, u8)> = vec![
    (s("a"), Some(s("1")), 0),
    (s("a"), Some(s("2")), 0),
    (s("b"), Some(s("")), 0),
    (s("c"), Some(s("x=y")), 0),
    (s(""), Some(s("e")), 0),
    (s("a"), Some(s("3")), 1),
    (s("b"), Some(s("1")), 1),
    (s("c"), Some(s("")), 1),
    (s("a"), None, 1),
    (s("c"), None, 1),
    (s("zz"), None, 1),
  ];
  let depth = ctx.pick(4, 5);
  for init in &inits {
    let mut h: Vec<usize> = vec![];
    histories(ctx, adds.len(), depth, &mut h, &mut |ctx, h| {
      ctx.state(h64(&(init, h)));
      ctx.steps(h.len() as u64 + 1);
      ctx.case(
        || format!("parameters {:?}, operations {:?}", init, h.iter().map(|i| &adds[*i]).collect::<Vec<_>>()),
        || {
          let mut q = if h.len() % 2 == 0 { Query::new(init.clone()) } else { Query::from(init.iter().map(|(k, v)| (k.as_str(), v.as_deref())).collect::<Vec<_>>()) };
          let mut m = init.clone();
          same(&q, &m)?;
          for i in h {
            let (k, v, how) = &adds[*i];
            if *how == 0 {
              q.add(k.clone(), v.clone().unwrap());
              m.push((k.clone(), v.clone()));
            } else {
              q.add_opt(k.clone(), v.clone());
              if v.is_some() {
                m.push((k.clone(), v.clone()));
              }
            }
            same(&q, &m)?;
          }
          Ok(h64(&m))
        },
      );
    });
  }
  // keys and values of every spelling: lookup and printing take texts as they are
  let spell = SPELLINGS;
  for k in spell {
    for k2 in spell {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      ctx.state(h64(&("spelling", k, k2)));
      ctx.steps(spell.len() as u64);
      ctx.case(
        || format!("keys {:?} and {:?} with values of every spelling", k, k2),
        || {
          for v in spell {
            for items in [vec![(s(k), Some(s(v))), (s(k2), Some(s("1")))], vec![(s(k), None), (s(k2), Some(s(v))), (s(k), Some(s(v)))]] {
              let mut q = Query::new(items.clone());
              let mut m = items.clone();
              same(&q, &m)?;
              let r = Query::from(items.iter().map(|(k, v)| (k.as_str(), v.as_deref())).collect::<Vec<_>>());
              same(&r, &m)?;
              same(&Query::from(items.clone()), &m)?;
              q.add(s(k2), s(v));
              q.add_opt(s(k), Some(s(v)));
              q.add_opt(s(v), None);
              m.push((s(k2), Some(s(v))));
              m.push((s(k), Some(s(v))));
              same(&q, &m)?;
              // order of two queries is the order of their texts
              let (tq, tr) = (text_of(&m), text_of(&items));
              if q.partial_cmp(&r) != tq.partial_cmp(&tr) {
                return Err(format!("{:?} and {:?} do not compare like their texts", tq, tr));
              }
              let (one, two) = (Query::new(vec![items[0].clone()]), Query::new(vec![items[1].clone()]));
              if one.partial_cmp(&two) != one.to_string().partial_cmp(&two.to_string()) {
                return Err(format!("{} and {} do not compare like their texts", one, two));
              }
            }
          }
          Ok(h64(&(k, k2)))
        },
      );
    }
  }
  // many parameters, some of them repeated, added one by one or parsed
  for n in crate::text::lengths(ctx) {
    for kinds in 1..=5usize {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      let keys = ["a", "b", "c", "", "zz"];
      let items: Items = (0..n).map(|i| (keys[i * i % kinds].to_string(), if i % 4 == 3 { None } else { Some(if i % 6 == 1 { String::new() } else { format!("v{}", i) }) })).collect();
      ctx.state(h64(&("many", &items)));
      ctx.steps(n as u64 * 2);
      ctx.case(
        || format!("{} parameters over {} keys", n, kinds),
        || {
          let mut q = Query::new(vec![]);
          let mut m: Items = vec![];
          for (i, (k, v)) in items.iter().enumerate() {
            match v {
              Some(v) if i % 2 == 0 => q.add(k.clone(), v.clone()),
              v => q.add_opt(k.clone(), v.clone()),
            }
            if v.is_some() {
              m.push((k.clone(), v.clone()));
            }
            if i % 16 == 15 {
              same(&q, &m)?;
            }
          }
          same(&q, &m)?;
          same(&Query::new(items.clone()), &items)?;
          if n > 0 && text_of(&items) != "" {
            let text = format!("a:?{}", text_of(&items));
            let u = Uri::parse(&text).map_err(|e| format!("{:?} rejected: {}", text, e))?;
            same(u.query().ok_or("no query")?, &items)?;
          }
          Ok(h64(&items))
        },
      );
    }
  }
  let d = ctx.pick(6, 7);
  word_space(ctx, &[""], &["a", "b", "=", "&", "%41", "?", "/", ":", "c"], d, "", &mut |ctx, w| {
    let text = format!("a:?{}", w);
    let items = model::query_items(w);
    ctx.state(h64(w));
    ctx.steps(items.len() as u64);
    ctx.case(
      || format!("query {:?}", w),
      || {
        let u = Uri::parse(&text).map_err(|e| format!("rejected: {}", e))?;
        let mut q = u.query().ok_or("no query")?.clone();
        let mut m = items.clone();
        same(&q, &m)?;
        q.add("a".into(), "9".into());
        m.push(("a".into(), Some("9".into())));
        same(&q, &m)?;
        Ok(h64(&m))
      },
    );
  });
}

/// Every sequence of 0..=depth choices below `n`, handed out by first two choices.
fn histories(ctx: &mut Ctx, n: usize, depth: usize, h: &mut Vec<usize>, f: &mut dyn FnMut(&mut Ctx, &[usize])) {
  if ctx.full() {
    return;
  }
  if h.len() <= 1 {
    if ctx.mine() {
      f(ctx, h);
    }
  } else if h.len() == 2 {
    if !ctx.mine() {
      return;
    }
    f(ctx, h);
  } else {
    f(ctx, h);
  }
  if h.len() < depth {
    for i in 0..n {
      h.push(i);
      histories(ctx, n, depth, h, f);
      h.pop();
    }
  }
}

// ------------------------------------------------------------------ U06

fn same_path(p: &Path, parts: &[String], kind: Option<u8>) -> Result<(), String> {
  if p.parts() != parts {
    return Err(format!("parts are {:?}, expected {:?}", p.parts(), parts));
  }
  if p.is_empty() != parts.is_empty() || p.non_empty() == parts.is_empty() {
    return Err(format!("is_empty() is {} and non_empty() {} for {:?}", p.is_empty(), p.non_empty(), parts));
  }
  if p.to_string() != parts.concat() {
    return Err(format!("prints as {:?}, expected {:?}", p.to_string(), parts.concat()));
  }
  let k = match p {
    Path::RootlessPath { .. } => 0,
    Path::AbemptyPath { .. } => 1,
    Path::AbsolutePath { .. } => 2,
    Path::NoSchemePath { .. } => 3,
    Path::EmptyPath { .. } => 4,
  };
  let names = ["rootless_path", "abempty_path", "absolute_path", "no_scheme_path", "empty_path"];
  if p.type_name() != names[k as usize] {
    return Err(format!("a value of kind {} is named {:?}", names[k as usize], p.type_name()));
  }
  match kind {
    Some(x) if x != k => Err(format!("is of kind {}, expected {}", names[k as usize], names[x as usize])),
    _ => Ok(()),
  }
}

pub fn u06(ctx: &mut Ctx) {
  let pool = ["/a", "b", "/", ""];
  let mut lists: Vec<Vec<String>> = vec![vec![]];
  for x in pool {
    lists.push(vec![x.into()]);
    for y in pool {
      lists.push(vec![x.into(), y.into()]);
    }
  }
  let depth = ctx.pick(5, 6);
  for kind in 0..=4u8 {
    for (li, l) in lists.iter().enumerate() {
      if kind == 4 && li > 0 {
        break;
      }
      let mut h = vec![];
      histories(ctx, 8, depth, &mut h, &mut |ctx, h| {
        ctx.state(h64(&(kind, l, h)));
        ctx.steps(h.len() as u64 + 1);
        ctx.case(
          || format!("kind {} parts {:?} operations {:?}", kind, l, h),
          || {
            let strs: Vec<&str> = l.iter().map(|s| s.as_str()).collect();
            let by_str = h.len() % 2 == 1;
            let mut p = match (kind, by_str) {
              (0, true) => Path::of_rootless_from_strs(&strs),
              (0, false) => Path::of_rootless_from_strings(l),
              (1, true) => Path::of_abempty_from_strs(&strs),
              (1, false) => Path::of_abempty_from_strings(l),
              (2, true) => Path::of_absolute_from_strs(&strs),
              (2, false) => Path::of_absolute_from_strings(l),
              (3, true) => Path::of_no_scheme_from_strs(&strs),
              (3, false) => Path::of_no_scheme_from_strings(l),
              (_, true) => Path::default(),
              (_, false) => Path::of_empty(),
            };
            let mut m = l.clone();
            let mut k = kind;
            same_path(&p, &m, Some(k))?;
            for op in h {
              let (added, conv): (Vec<&str>, Option<u8>) = match op {
                0 => (vec!["/x"], None),
                1 => (vec![""], None),
                2 => (vec!["/y", "/z"], None),
                3 => (vec![], None),
                4 => (vec!["/w", "v"], None),
                5 => (vec![], Some(0)),
                6 => (vec![], Some(2)),
                _ => (vec![], Some(9)),
              };
              let own: Vec<String> = added.iter().map(|s| s.to_string()).collect();
              let before = p.clone();
              match op {
                0 | 1 => p.add_part(own[0].clone()),
                2 | 3 => p.add_parts(own.clone()),
                4 => p.with_parts(own.clone()),
                5 => p = p.to_rootless(),
                6 => p = p.to_absolute(),
                _ => {
                  // converting a copy leaves the original alone
                  let mut c = p.clone();
                  let r = p.to_rootless();
                  same_path(&r, &m, Some(0))?;
                  same_path(&p.to_absolute(), &m, Some(2))?;
                  c.add_part("/q".into());
                }
              }
              if k != 4 {
                m.extend(own);
              }
              match conv {
                Some(9) => {
                  if p != before {
                    return Err("editing a clone changed the original".to_string());
                  }
                }
                Some(c) => k = c,
                None => {}
              }
              same_path(&p, &m, Some(k))?;
            }
            Ok(h64(&(k, &m)))
          },
        );
      });
    }
  }
  // parts of every spelling
  let mut spell: Vec<String> = SPELLINGS.iter().flat_map(|x| [x.to_string(), format!("/{}", x)]).collect();
  spell.extend(["/.", "/..", ".", "..", "/...", "//", "///", "/a/", "a/b", "/a/b", "\\", "/;x", "/a:b", ":", "@", "/@"].map(String::from));
  for a in &spell {
    for b in &spell {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      ctx.state(h64(&("spelling", a, b)));
      ctx.steps(20);
      ctx.case(
        || format!("parts {:?} and {:?}", a, b),
        || {
          for parts in [vec![a.clone()], vec![a.clone(), b.clone()], vec![a.clone(), b.clone(), a.clone()]] {
            let strs: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
            let all = [
              (Path::of_rootless_from_strs(&strs), Path::of_rootless_from_strings(&parts), Path::of_rootless_from_strs(&[])),
              (Path::of_abempty_from_strs(&strs), Path::of_abempty_from_strings(&parts), Path::of_abempty_from_strs(&[])),
              (Path::of_absolute_from_strs(&strs), Path::of_absolute_from_strings(&parts), Path::of_absolute_from_strs(&[])),
              (Path::of_no_scheme_from_strs(&strs), Path::of_no_scheme_from_strings(&parts), Path::of_no_scheme_from_strs(&[])),
            ];
            for (k, (p, q, mut r)) in all.into_iter().enumerate() {
              same_path(&p, &parts, Some(k as u8))?;
              same_path(&q, &parts, Some(k as u8))?;
              same_path(&p.to_rootless(), &parts, Some(0))?;
              same_path(&p.to_absolute(), &parts, Some(2))?;
              r.add_part(a.clone());
              r.add_parts(parts[1..].to_vec());
              same_path(&r, &parts, Some(k as u8))?;
              let mut w = p.clone();
              w.with_parts(parts.clone());
              let twice: Vec<String> = parts.iter().chain(&parts).cloned().collect();
              same_path(&w, &twice, Some(k as u8))?;
              if p != q || p != r || p == w {
                return Err(format!("equality of {:?}, {:?}, {:?}, {:?}", p, q, r, w));
              }
            }
          }
          Ok(h64(&(a, b)))
        },
      );
    }
  }
  // many parts, built at once, added one by one, added together, parsed
  for n in crate::text::lengths(ctx) {
    for form in 0..4usize {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      let parts: Vec<String> = (0..n).map(|i| match form { 0 => format!("/s{}", i), 1 => "/".into(), 2 => format!("/{}", "ab".repeat(i % 40)), _ => if i == 0 { "first".into() } else { format!("/%4{}", i % 10) } }).collect();
      ctx.state(h64(&("many", &parts)));
      ctx.steps(n as u64 * 2);
      ctx.case(
        || format!("{} parts of form {}", n, form),
        || {
          let all = [Path::of_rootless_from_strings(&parts), Path::of_abempty_from_strings(&parts), Path::of_absolute_from_strings(&parts), Path::of_no_scheme_from_strings(&parts)];
          for (k, p) in all.iter().enumerate() {
            same_path(p, &parts, Some(k as u8))?;
            same_path(&p.to_rootless(), &parts, Some(0))?;
            same_path(&p.to_absolute(), &parts, Some(2))?;
            let cut = n / 3;
            let mut q = match k {
              0 => Path::of_rootless_from_strings(&parts[..cut]),
              1 => Path::of_abempty_from_strings(&parts[..cut]),
              2 => Path::of_absolute_from_strings(&parts[..cut]),
              _ => Path::of_no_scheme_from_strings(&parts[..cut]),
            };
            q.add_parts(parts[cut..2 * cut].to_vec());
            for x in &parts[2 * cut..] {
              q.add_part(x.clone());
            }
            same_path(&q, &parts, Some(k as u8))?;
            if q != *p {
              return Err(format!("built step by step it differs from {:?}", p));
            }
          }
          let text = parts.concat();
          if !text.starts_with("//") && !text.is_empty() {
            for (pre, post) in [("a:", ""), ("a://h", "?q"), ("a:", "#f")] {
              if pre.len() > 2 && !text.starts_with('/') {
                continue;
              }
              let u = Uri::parse(&format!("{}{}{}", pre, text, post)).map_err(|e| format!("rejected: {}", e))?;
              same_path(u.path().ok_or("no path")?, &parts, None)?;
            }
          }
          Ok(h64(&(form, n)))
        },
      );
    }
  }
  let d = ctx.pick(6, 7);
  let alpha = ["a", "/", ":", "@", "%2f", ".", "=", "b;"];
  for (pre, post) in [("a:", ""), ("a://h", ""), ("a:", "?q#f")] {
    word_space(ctx, &[""], &alpha, d, "", &mut |ctx, w| {
      let text = format!("{}{}{}", pre, w, post);
      // the word is the path only in a URI that gives it that place
      let want = match model::uri(&text) {
        Some(p) if p.path.concat() == w => p.path,
        _ => return,
      };
      ctx.state(h64(&text));
      ctx.steps(want.len() as u64);
      ctx.case(
        || format!("path {:?} in {:?}", w, text),
        || {
          let u = Uri::parse(&text).map_err(|e| format!("rejected: {}", e))?;
          match u.path() {
            None if want.is_empty() => Ok(0),
            None => Err("no path".to_string()),
            Some(p) => {
              same_path(p, &want, None)?;
              let mut q = p.clone();
              q.add_part("/end".into());
              let mut more = want.clone();
              if !matches!(p, Path::EmptyPath { .. }) {
                more.push("/end".into());
              }
              same_path(&q, &more, None)?;
              same_path(p, &want, None)?;
              Ok(h64(&want))
            }
          }
        },
      );
    });
  }
}
