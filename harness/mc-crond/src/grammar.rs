//! C01: acceptance and contents of parsed expressions.

use crate::model::*;
use chrono::Utc;
use mc_core::{for_words, h64, Ctx};
use oni_comb_crond_rs::{CronParser, CronSchedule};
use std::collections::HashSet;

fn check(ctx: &mut Ctx, text: &str) {
  let want = expression(text);
  ctx.state(h64(text));
  ctx.steps(text.chars().count() as u64 + 1);
  ctx.case(
    || format!("parse {:?}", text),
    || {
      let got = CronParser::parse(text);
      let sched = CronSchedule::<Utc>::new(text);
      if sched.is_ok() != got.is_ok() {
        return Err("CronSchedule::new and CronParser::parse disagree on acceptance".to_string());
      }
      match (&want, &got) {
        (None, Err(_)) => Ok(0),
        (Some(w), Ok(e)) => match read_back(e) {
          Some(r) if r == *w => Ok(h64(&r)),
          _ => Err(format!("expected {:?}, got {:?}", w, e)),
        },
        (Some(w), Err(e)) => Err(format!("is in the grammar ({:?}) but was rejected: {}", w, e)),
        (None, Ok(e)) => Err(format!("is not in the grammar but was accepted as {:?}", e)),
      }
    },
  );
}

fn put(pos: usize, f: &str, other: &str) -> String {
  (0..5).map(|i| if i == pos { f } else { other }).collect::<Vec<_>>().join(" ")
}

const SHAPES: [&str; 30] = [
  "*", "*/1", "*/2", "*/7", "*/12", "1", "01", "7", "9", "12", "13", "0", "00", "23", "24", "31", "32", "59", "60", "1-5", "5-1", "1-7/2", "1,2", "1,2-3,4", "2-6/3,7", "SUN", "MON-FRI", "L", "", "*,1",
];

const VALID: [&str; 24] = [
  "* * * * *",
  "0 0 1 1 1",
  "59 23 31 12 7",
  "*/5 */2 */3 */4 */2",
  "1-5 1-5 1-5 1-5 1-5",
  "0-59/30 0-23/2 * * *",
  "1,2,3 4,5 6,7 8,9 1,7",
  "10,20-30/5,40 * * * *",
  "* 0-23/3,22 * * *",
  "* * 10-20/2,31 * *",
  "* * * 1-12/5,11 *",
  "* * * * SUN",
  "* * * * MON-FRI",
  "* * * * MON,WED,FRI/2",
  "* * * * L",
  "* * * * 1,L",
  "05 05 05 05 5",
  "00 00 01 01 1",
  "0,0 0 1 1 SAT",
  "9 9 9 9 TUE-THU/2",
  "*/59 */23 */31 */12 */7",
  "15 10 3 2 3-5,7",
  "55-59 20-23 30-31 10-12 6-7",
  "1 2 3 4 5",
];

pub fn c01(ctx: &mut Ctx) {
  let alpha = ["0", "1", "2", "3", "5", "6", "9", ",", "-", "/", "*", "L", "SUN", "FRI", " "];
  let depth = ctx.pick(4, 5);
  for pos in 0..5 {
    let mut todo: Vec<String> = vec![];
    for_words(&alpha, depth, &mut |w, _| todo.push(w.to_string()));
    for chunk in todo.chunks(512) {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      for w in chunk {
        check(ctx, &put(pos, w, "*"));
      }
    }
  }
  // every number
  let mut nums: Vec<String> = (0..=130).map(|n| n.to_string()).collect();
  nums.extend((0..100).map(|n| format!("{:02}", n)));
  nums.extend((0..100).map(|n| format!("{:03}", n)));
  nums.extend(["200", "256", "257", "300", "316", "999", "1000", "4294967297", "18446744073709551617"].map(String::from));
  nums.extend(NAMES.iter().flat_map(|n| [n.to_string(), n.to_lowercase(), n[..2].to_string(), format!("{}1", n), format!("{}DAY", n)]));
  nums.sort();
  nums.dedup();
  for pos in 0..5 {
    let ok = if pos == DOW { "2" } else { "3" };
    for n in &nums {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      for f in [
        n.clone(),
        format!("{}-{}", n, ok),
        format!("{}-{}", ok, n),
        format!("{}-{}/{}", ok, ok, n),
        format!("{}-{}/{}", n, n, n),
        format!("*/{}", n),
        format!("{},{}", ok, n),
        format!("{},{}", n, ok),
        format!("{},{}-{}/2,{}", n, n, ok, n),
        format!("{}/{}", n, ok),
      ] {
        check(ctx, &put(pos, &f, "*"));
        check(ctx, &put(pos, &f, "1"));
      }
    }
  }
  // ordered pairs of shapes across positions
  for p in 0..5 {
    for q in p + 1..5 {
      for a in SHAPES {
        if ctx.full() {
          return;
        }
        if !ctx.mine() {
          continue;
        }
        for b in SHAPES {
          let t = (0..5).map(|i| if i == p { a } else if i == q { b } else { "*" }).collect::<Vec<_>>().join(" ");
          check(ctx, &t);
        }
      }
    }
  }
  // edits of valid expressions
  let letters: Vec<char> = "0123456789*/,-L SUNé\t".chars().collect();
  let edits = |s: &str| -> HashSet<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = HashSet::new();
    for i in 0..=c.len() {
      for l in &letters {
        let mut x = c.clone();
        x.insert(i, *l);
        out.insert(x.iter().collect());
        if i < c.len() {
          let mut x = c.clone();
          x[i] = *l;
          out.insert(x.iter().collect());
        }
      }
      if i < c.len() {
        let mut x = c.clone();
        x.remove(i);
        out.insert(x.iter().collect());
        out.insert(c[..i].iter().collect());
      }
    }
    out
  };
  let double = ctx.thorough();
  for v in VALID {
    let mut e: Vec<String> = edits(v).into_iter().collect();
    e.sort();
    for x in e {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      check(ctx, &x);
      if double && v.len() <= 13 {
        let mut f: Vec<String> = edits(&x).into_iter().collect();
        f.sort();
        for y in f {
          check(ctx, &y);
        }
      }
    }
  }
  // every character at every place of a few valid expressions
  let mut odd: Vec<char> = (0u32..0x250).filter_map(char::from_u32).collect();
  odd.extend("\u{661}\u{966}\u{2000}\u{2003}\u{200b}\u{2028}\u{2010}\u{2013}\u{2044}\u{2217}\u{3000}\u{feff}\u{ff0a}\u{ff0c}\u{ff0d}\u{ff0f}\u{ff10}\u{ff11}\u{ff19}\u{1d7ce}\u{1d7cf}".chars());
  for v in ["1 2 3 4 5", "*/5 1-9/2 1,2 * SUN", "* * * * L"] {
    let c: Vec<char> = v.chars().collect();
    for i in 0..=c.len() {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      for o in &odd {
        let mut x = c.clone();
        x.insert(i, *o);
        check(ctx, &x.iter().collect::<String>());
        if i < c.len() {
          let mut x = c.clone();
          x[i] = *o;
          check(ctx, &x.iter().collect::<String>());
        }
      }
    }
  }
  // lists of every length, with one member that does not belong
  let mut lens: Vec<usize> = (2..=ctx.pick(66, 130)).collect();
  lens.extend([127, 128, 129, 255, 256, 257, 300, ctx.pick(300, 1000)]);
  for pos in 0..5 {
    let (lo, hi) = (LO[pos] as usize, HI[pos] as usize);
    let item = |k: usize| {
      let v = lo + k * 7 % (hi - lo + 1);
      match k % 4 {
        0 | 2 => v.to_string(),
        1 => format!("{}-{}", lo + k % (v - lo + 1), v),
        _ => format!("{}-{}/{}", v, hi, 1 + k % hi),
      }
    };
    for n in &lens {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      let all: Vec<String> = (0..*n).map(item).collect();
      for other in ["*", "1"] {
        check(ctx, &put(pos, &all.join(","), other));
      }
      // repeated, falling and rising members
      let v = |k: usize| (lo + k % (hi - lo + 1)).to_string();
      let runs: [Vec<String>; 6] = [
        vec![v(2); *n],
        (0..*n).map(|k| v(k / 2)).collect(),
        (0..*n).map(|k| v(k / 3 * 2)).collect(),
        (0..*n).map(|k| v(hi * 2 - k % hi)).collect(),
        (0..*n).map(v).collect(),
        (0..*n).map(|k| format!("{}-{}", v(k / 2), v(k / 2))).collect(),
      ];
      for r in runs {
        check(ctx, &put(pos, &r.join(","), "*"));
      }
      for at in [0, 1, n / 2, n - 1] {
        for bad in [(hi + 1).to_string(), String::new(), "*".into(), "1-".into(), format!("1-{}/{}", hi, hi + 1), "*/2".into(), "1 ".into()] {
          let mut x = all.clone();
          x[at] = bad;
          check(ctx, &put(pos, &x.join(","), "*"));
        }
      }
      // as many zeros in front, as many spaces, as many fields
      check(ctx, &put(pos, &format!("{}1", "0".repeat(*n)), "*"));
      check(ctx, &put(pos, "*", "*").replacen(' ', &" ".repeat(*n), pos.max(1)));
      check(ctx, &vec!["*"; *n].join(" "));
      check(ctx, &format!("* * * * *{}", " *".repeat(*n)));
      check(ctx, &format!("{}* * * * *", " ".repeat(*n)));
    }
  }
  // every five-tuple of eight short shapes
  let few = ["*", "2", "*/3", "1-4", "1-4/2", "1,3", "8", "L"];
  for a in few {
    for b in few {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      for c in few {
        for d in few {
          for e in few {
            check(ctx, &[a, b, c, d, e].join(" "));
          }
        }
      }
    }
  }
  // short whole texts
  let mut todo: Vec<String> = vec![];
  for_words(&["*", " ", "1", "/", ","], ctx.pick(9, 10), &mut |w, n| {
    // at most four separators make five fields; keep all shorter prefixes as well
    if n <= 6 || w.matches(' ').count() >= 3 {
      todo.push(w.to_string());
    }
  });
  for chunk in todo.chunks(512) {
    if ctx.full() {
      return;
    }
    if !ctx.mine() {
      continue;
    }
    for w in chunk {
      check(ctx, w);
    }
  }
}
