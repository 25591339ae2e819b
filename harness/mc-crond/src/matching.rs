//! C02: which instants satisfy an expression.

use crate::model::*;
use chrono::{DateTime, Datelike, FixedOffset, TimeZone, Timelike, Utc};
use mc_core::{h64, Ctx};
use oni_comb_crond_rs::{CronEvaluator, CronExpr, CronParser, CronSpecification, Specification};

pub fn at(c: &Civil, offset_min: i32) -> DateTime<FixedOffset> {
  FixedOffset::east_opt(offset_min * 60)
    .unwrap()
    .with_ymd_and_hms(c.year, c.month as u32, c.day as u32, c.hour as u32, c.minute as u32, c.second as u32)
    .unwrap()
}

type Instants = Vec<(Civil, DateTime<FixedOffset>)>;

fn check(ctx: &mut Ctx, text: &str, which: &str, instants: &Instants) {
  let fs = match expression(text) {
    Some(f) => f,
    None => return,
  };
  let eh = h64(text);
  for (c, d) in instants {
    ctx.state(h64(&(eh, c, d.offset().local_minus_utc())));
  }
  ctx.steps(instants.len() as u64 * 5);
  ctx.note("instants_evaluated", instants.len() as u64);
  ctx.case(
    || format!("{:?} on {}", text, which),
    || {
      let e: CronExpr = CronParser::parse(text).map_err(|e| format!("rejected: {}", e))?;
      let spec = CronSpecification::new(e.clone());
      let mut bits = 0u64;
      for (i, (c, d)) in instants.iter().enumerate() {
        let got = mc_core::guarded(|| spec.is_satisfied_by(d)).map_err(|p| format!("at {}: {}", d, p))?;
        if let Some(w) = matches(&fs, c) {
          if got != w {
            return Err(format!("at {} (weekday {}): expected {}, got {}", d, c.weekday(), w, got));
          }
        }
        let again = CronEvaluator::new(d).eval(&e);
        if again != got {
          return Err(format!("at {}: evaluator says {} and specification {}", d, again, got));
        }
        bits = bits.rotate_left(5) ^ (got as u64 + 1).wrapping_mul(i as u64 * 2 + 1);
      }
      Ok(bits)
    },
  );
}

fn one_field(pos: usize, f: &str) -> String {
  (0..5).map(|i| if i == pos { f } else { "*" }).collect::<Vec<_>>().join(" ")
}

/// instants that cover every value of a field while the other fields vary too
fn spread(pos: usize) -> Instants {
  let mut out = vec![];
  let base = [Civil::new(2021, 1, 31, 23, 59, 0), Civil::new(2024, 2, 29, 0, 0, 59), Civil::new(2000, 12, 1, 7, 7, 7), Civil::new(1969, 7, 20, 20, 17, 40)];
  for (k, b) in base.iter().enumerate() {
    let off = [0, 330, -720, 840][k];
    match pos {
      MINUTE => (0..60).for_each(|m| out.push((Civil { minute: m, ..*b }, off))),
      HOUR => (0..24).for_each(|h| out.push((Civil { hour: h, ..*b }, off))),
      DAY => (1..=month_len(b.year, b.month)).for_each(|d| out.push((Civil { day: d, ..*b }, off))),
      MONTH => (1..=12).for_each(|m| out.push((Civil { month: m, day: 1 + b.day % 28, ..*b }, off))),
      _ => (1..=28).for_each(|d| out.push((Civil { day: d, minute: (d * 2) % 60, ..*b }, off))),
    }
  }
  out.into_iter().map(|(c, o)| (c, at(&c, o))).collect()
}

fn calendar(years: &[i32], minute_step: usize) -> Instants {
  let mut out = vec![];
  let offs = [0, 60 * 14, -60 * 12, 345];
  for y in years {
    let mut n = 0usize;
    for m in 1..=12u8 {
      for d in 1..=month_len(*y, m) {
        n += 1;
        let h = (n * 7 % 24) as u8;
        let mi = (n * minute_step % 60) as u8;
        let c = Civil::new(*y, m, d, h, mi, (n % 60) as u8);
        out.push((c, at(&c, offs[n % 4])));
        for (h, mi) in [(0, 0), (23, 59)] {
          let c = Civil::new(*y, m, d, h, mi, 0);
          out.push((c, at(&c, offs[(n + 1) % 4])));
        }
      }
    }
  }
  out
}

/// the days of years far away, up to both ends of chrono's calendar, in UTC
fn edge_years(years: &[i32]) -> Instants {
  let mut out = vec![];
  for y in years {
    for m in 1..=12u8 {
      for d in 1..=month_len(*y, m) {
        let (h, mi) = [(0, 0), (23, 59), (11, 13)][d as usize % 3];
        let c = Civil::new(*y, m, d, h, mi, (d + m) % 60);
        out.push((c, at(&c, 0)));
      }
    }
  }
  out
}

pub fn c02(ctx: &mut Ctx) {
  let name = ["every minute", "every hour", "every day of month", "every month", "every weekday"];
  for pos in 0..5 {
    let ins = spread(pos);
    let (lo, hi) = (LO[pos], HI[pos]);
    let mut fields: Vec<String> = vec!["*".into()];
    for a in lo..=hi {
      fields.push(format!("{}", a));
      fields.push(format!("*/{}", a));
    }
    if lo == 0 {
      fields.push("*/0".into());
    }
    for a in lo..=hi {
      for b in lo..=hi {
        fields.push(format!("{}-{}", a, b));
        let all = ctx.thorough() || hi <= 31;
        for s in lo..=hi {
          if all || (s <= 7 || s == 10 || s == 15 || s >= 58) && (a % 5 == 0 || a % 7 == 1 || a >= 58) && (b % 6 == 5 || b <= 2 || b >= 57) {
            fields.push(format!("{}-{}/{}", a, b, s));
          }
        }
      }
    }
    let parts: Vec<String> = if pos == DOW {
      ["1", "2", "4", "7", "SUN", "WED", "SAT", "1-3", "3-1", "2-7/2", "1-7/3", "MON-FRI", "L", "5-5"].map(String::from).to_vec()
    } else {
      let h = hi;
      vec![format!("{}", lo), format!("{}", h), "1".into(), "7".into(), format!("{}-{}", lo, h / 2), format!("3-{}/2", h), format!("{}-2", h), format!("{}-{}/{}", lo, h, 5), "5-5".into(), "2-9/7".into()]
    };
    for a in &parts {
      for b in &parts {
        fields.push(format!("{},{}", a, b));
        for c in &parts {
          fields.push(format!("{},{},{}", a, b, c));
        }
      }
    }
    if pos == DOW {
      for n in NAMES {
        fields.push(n.into());
        fields.push(format!("*/{}", n));
        for m in NAMES {
          fields.push(format!("{}-{}", n, m));
          fields.push(format!("{}-{}/2", n, m));
        }
      }
      fields.extend(["L", "1-L", "L-1", "L-L", "1-7/L", "*/L", "L,L", "L,1-L", "2,L"].map(String::from));
    }
    // long lists: everything but one value, up and down, as values and as ranges; repetitions with one more
    for v in lo..=hi {
      let but: Vec<String> = (lo..=hi).filter(|x| *x != v).map(|x| x.to_string()).collect();
      fields.push(but.join(","));
      fields.push(but.iter().rev().cloned().collect::<Vec<_>>().join(","));
      fields.push(but.iter().map(|x| format!("{}-{}", x, x)).collect::<Vec<_>>().join(","));
      fields.push(but.iter().map(|x| format!("{}-{}/{}", x, hi, hi.max(2) - 1)).collect::<Vec<_>>().join(","));
      for n in [2usize, 31, 32, 63, 64, 65, 100, 128, 256] {
        fields.push(format!("{}{}", format!("{},", hi).repeat(n), v));
        fields.push(format!("{}{}", v, format!(",{}-{}", hi, lo).repeat(n)));
      }
    }
    for f in &fields {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      check(ctx, &one_field(pos, f), name[pos], &ins);
    }
  }
  // whole calendars for the date fields
  let years: Vec<i32> = if ctx.thorough() {
    (1895..=1905).chain(1968..=1972).chain(1996..=2030).chain(2096..=2104).chain([1600, 2400, 4000]).collect()
  } else {
    vec![1900, 1970, 1999, 2000, 2001, 2004, 2019, 2020, 2021, 2023, 2024, 2100, 2400]
  };
  let mut cal = calendar(&years, 13);
  let ends = (chrono::NaiveDate::MIN, chrono::NaiveDate::MAX);
  cal.extend(edge_years(&[ends.0.year(), ends.0.year() + 1, -401, -400, -100, -4, -1, 0, 1, 4, 100, 9999, 10000, 65535, 65536, ends.1.year() - 1, ends.1.year()]));
  let mut exprs: Vec<String> = vec![];
  for d in 1..=7 {
    exprs.push(format!("* * * * {}", d));
  }
  for n in NAMES {
    exprs.push(format!("* * * * {}", n));
  }
  for d in 1..=31 {
    exprs.push(format!("* * {} * *", d));
    exprs.push(format!("* * */{} * *", d));
    exprs.push(format!("* * {}-31/2 2 *", d));
    exprs.push(format!("* * {} 2-4 1-5", d));
  }
  for m in 1..=12 {
    exprs.push(format!("* * * {} *", m));
    exprs.push(format!("* * * */{} *", m));
    exprs.push(format!("0 0 28-31 {} L", m));
  }
  exprs.extend(["* * * * L", "* * 29 2 *", "59 23 31 12 *", "0 0 1 1 *", "0 0 29 2 L", "* * 13 * FRI", "*/13 */7 */5 */3 */2", "* * 31 2,4,6 *"].map(String::from));
  for e in &exprs {
    if ctx.full() {
      return;
    }
    if ctx.mine() {
      check(ctx, e, &format!("{} instants of {} years", cal.len(), years.len() + 17), &cal);
    }
  }
  // all tuples of shapes across the five fields
  let n = ctx.pick(6, 8);
  let shapes: [[&str; 8]; 5] = [
    ["*", "0", "*/7", "59", "5-30", "1,58-59,0-40/20", "30-5", "*/0"],
    ["*", "0", "*/5", "23", "6-18/4", "22-23,0", "12", "18-6"],
    ["*", "1", "*/9", "31", "28-31", "1-31/3,2", "29", "31-1"],
    ["*", "1", "*/4", "12", "2-3", "12,2-9/7", "2", "12-1"],
    ["*", "1", "*/2", "SAT", "2-6", "L,SUN", "L", "7-1"],
  ];
  let mut ins: Instants = vec![];
  for (y, m, d) in [(2020, 2, 28), (2020, 2, 29), (2021, 2, 28), (2021, 3, 1), (2021, 1, 31), (2021, 12, 31), (2022, 1, 1), (2022, 1, 2), (2021, 4, 30), (2000, 2, 29), (2021, 5, 10), (2021, 9, 19)] {
    for (h, mi) in [(0, 0), (0, 59), (23, 59), (23, 0), (10, 20), (12, 30), (6, 58), (5, 7)] {
      for (o, s) in [(0, 0), (540, 31), (-300, 59)] {
        let c = Civil::new(y, m, d, h, mi, s);
        ins.push((c, at(&c, o)));
      }
    }
  }
  for a in 0..n {
    for b in 0..n {
      for c in 0..n {
        if ctx.full() {
          return;
        }
        if !ctx.mine() {
          continue;
        }
        for d in 0..n {
          for e in 0..n {
            let t = [shapes[0][a], shapes[1][b], shapes[2][c], shapes[3][d], shapes[4][e]].join(" ");
            check(ctx, &t, "288 boundary instants", &ins);
          }
        }
      }
    }
  }
  // the same wall-clock reading in every offset gives the same answer (Utc as well)
  for t in ["* * * * 1", "0 0 1 * *", "*/5 1-3 * 2 2,L", "59 23 31 12 *", "30 5 29 2 *"] {
    if !ctx.mine() {
      continue;
    }
    ctx.steps(96 * 12);
    ctx.case(
      || format!("{:?}: same wall clock in every offset", t),
      || {
        let e = CronParser::parse(t)?;
        for (c, _) in ins.iter() {
          let u = Utc.with_ymd_and_hms(c.year, c.month as u32, c.day as u32, c.hour as u32, c.minute as u32, c.second as u32).unwrap();
          let base = CronEvaluator::new(&u).eval(&e);
          for o in (-12..=14).map(|h| h * 60).chain([345, -210]) {
            if CronEvaluator::new(&at(c, o)).eval(&e) != base {
              return Err(format!("offset {} min changes the answer at {:?}", o, c));
            }
          }
          // seconds, fractions and leap seconds; offsets of seconds
          for sec in 0..60u32 {
            for ns in [0u32, 1, 500_000_000, 999_999_999, 1_000_000_000, 1_500_000_000, 1_999_999_999] {
              if let Some(d) = u.with_second(sec).unwrap().with_nanosecond(ns) {
                if CronEvaluator::new(&d).eval(&e) != base || CronSpecification::new(e.clone()).is_satisfied_by(&d) != base {
                  return Err(format!("second {} and {} ns change the answer at {:?}", sec, ns, c));
                }
              }
            }
          }
          for o in [1, -1, 59, 61, 21_208, -17_762, 86_399, -86_399] {
            let z = FixedOffset::east_opt(o).unwrap();
            let d = z.with_ymd_and_hms(c.year, c.month as u32, c.day as u32, c.hour as u32, c.minute as u32, c.second as u32).unwrap();
            if CronEvaluator::new(&d).eval(&e) != base {
              return Err(format!("offset {} s changes the answer at {:?}", o, c));
            }
          }
        }
        Ok(h64(t))
      },
    );
  }
}
