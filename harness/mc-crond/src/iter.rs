//! C03: the instants an iterator yields, for every window and every history of calls.

use crate::matching::at;
use crate::model::*;
use chrono::{DateTime, Duration, FixedOffset};
use intervals_rs::LimitValue;
use mc_core::{h64, Ctx};
use oni_comb_crond_rs::{CronInterval, CronParser, CronSchedule, CronSpecification};

/// Model: the first `cap` matching instants of start, start+1min, .. not after `end`
/// (minutes are walked on the civil calendar, at most `horizon` of them).
fn model(fs: &[Field], start: &Civil, limit_ms: Option<i64>, cap: usize, horizon: i64) -> Vec<i64> {
  let mut out = vec![];
  let mut c = *start;
  let mut dow = c.weekday();
  for k in 0..=horizon {
    if let Some(l) = limit_ms {
      if k * 60_000 > l {
        break;
      }
    }
    if matches_on(fs, &c, dow) == Some(true) {
      out.push(k);
      if out.len() == cap {
        break;
      }
    }
    let day = c.day;
    c = c.plus_minute();
    if c.day != day {
      dow = dow % 7 + 1;
    }
  }
  out
}

fn interval(text: &str, start: &DateTime<FixedOffset>, end: Option<DateTime<FixedOffset>>) -> CronInterval<FixedOffset, CronSpecification> {
  let spec = CronSpecification::new(CronParser::parse(text).unwrap());
  CronInterval::new(LimitValue::Limit(*start), end.map_or(LimitValue::Limitless, LimitValue::Limit), spec)
}

fn window(ctx: &mut Ctx, text: &str, start: &Civil, off: i32, ms: i64, limit_ms: i64) {
  let fs = expression(text).unwrap();
  let want = model(&fs, start, Some(limit_ms), usize::MAX, limit_ms / 60_000 + 1);
  ctx.steps(want.len() as u64 + 4);
  ctx.state(h64(&(text, start, off, ms, limit_ms)));
  ctx.case(
    || format!("{:?} from {:?} at {:+} min, +{} ms, window {} ms", text, start, off, ms, limit_ms),
    || {
      let s = at(start, off) + Duration::milliseconds(ms);
      let e = s + Duration::milliseconds(limit_ms);
      let iv = interval(text, &s, Some(e));
      let mut it = iv.iter(*s.offset());
      let mut fp = 0u64;
      for k in &want {
        let w = s + Duration::minutes(*k);
        match it.next() {
          Some(g) if g == w && g.offset() == w.offset() => fp = h64(&(fp, k)),
          g => return Err(format!("expected {}, got {:?}", w, g)),
        }
      }
      for _ in 0..3 {
        if let Some(g) = it.next() {
          return Err(format!("expected the end of the iteration (window ends {}), got {}", e, g));
        }
      }
      Ok(fp)
    },
  );
}

fn open_ended(ctx: &mut Ctx, text: &str, start: &Civil, off: i32, tz: i32, cap: usize, horizon: i64) {
  let fs = expression(text).unwrap();
  // the iterator works in the requested zone: shift the start's wall clock there
  let s = at(start, off);
  let mut local = *start;
  let mut d = tz - off;
  if d < 0 {
    // wall clock moved back: walk from an earlier civil minute
    local = back(start, (-d) as u32);
    d = 0;
  }
  for _ in 0..d {
    local = local.plus_minute();
  }
  let want = model(&fs, &local, None, cap, horizon);
  ctx.steps(want.len() as u64);
  ctx.state(h64(&(text, start, off, tz, cap)));
  ctx.case(
    || format!("{:?} open-ended from {:?} at {:+} min, iterated in {:+} min", text, start, off, tz),
    || {
      let sched = CronSchedule::<FixedOffset>::new(text)?;
      let zone = FixedOffset::east_opt(tz * 60).unwrap();
      let mut a = sched.cron_interval(s).iter(zone);
      let mut b = interval(text, &s, None).iter(zone);
      let mut u = sched.upcoming(s);
      for k in &want {
        let w = s + Duration::minutes(*k);
        for (n, g) in [("cron_interval", a.next()), ("CronInterval", b.next())] {
          match g {
            Some(g) if g == w && *g.offset() == zone => {}
            g => return Err(format!("{}: expected {}, got {:?}", n, w.with_timezone(&zone), g)),
          }
        }
        if tz == off {
          let g = u.next();
          if g != Some(w) {
            return Err(format!("upcoming: expected {}, got {:?}", w, g));
          }
        }
      }
      Ok(h64(&want))
    },
  );
}

fn back(c: &Civil, minutes: u32) -> Civil {
  let mut c = *c;
  for _ in 0..minutes {
    if c.minute > 0 {
      c.minute -= 1;
      continue;
    }
    c.minute = 59;
    if c.hour > 0 {
      c.hour -= 1;
      continue;
    }
    c.hour = 23;
    if c.day > 1 {
      c.day -= 1;
      continue;
    }
    if c.month > 1 {
      c.month -= 1;
    } else {
      c.month = 12;
      c.year -= 1;
    }
    c.day = month_len(c.year, c.month);
  }
  c
}

/// 2021-03-28 01:00 UTC, a Sunday
const JUMP: i64 = 1616893200;
/// 2022-01-01 00:00 UTC
const MIDNIGHT: i64 = 1640995200;

/// A zone that is A minutes ahead of UTC before the instant AT and B minutes afterwards.
#[derive(Clone, Copy, Debug)]
struct Shift<const AT: i64, const A: i32, const B: i32>;

impl<const AT: i64, const A: i32, const B: i32> Shift<AT, A, B> {
  fn east(minutes: i32) -> FixedOffset {
    FixedOffset::east_opt(minutes * 60).unwrap()
  }
}

impl<const AT: i64, const A: i32, const B: i32> chrono::TimeZone for Shift<AT, A, B> {
  type Offset = FixedOffset;
  fn from_offset(_: &FixedOffset) -> Self {
    Shift
  }
  fn offset_from_local_date(&self, local: &chrono::NaiveDate) -> chrono::LocalResult<FixedOffset> {
    self.offset_from_local_datetime(&local.and_hms_opt(0, 0, 0).unwrap())
  }
  fn offset_from_local_datetime(&self, local: &chrono::NaiveDateTime) -> chrono::LocalResult<FixedOffset> {
    let t = local.and_utc().timestamp();
    match (t - A as i64 * 60 < AT, t - B as i64 * 60 >= AT) {
      (true, true) => chrono::LocalResult::Ambiguous(Self::east(A), Self::east(B)),
      (true, false) => chrono::LocalResult::Single(Self::east(A)),
      (false, true) => chrono::LocalResult::Single(Self::east(B)),
      (false, false) => chrono::LocalResult::None,
    }
  }
  fn offset_from_utc_date(&self, utc: &chrono::NaiveDate) -> FixedOffset {
    self.offset_from_utc_datetime(&utc.and_hms_opt(0, 0, 0).unwrap())
  }
  fn offset_from_utc_datetime(&self, utc: &chrono::NaiveDateTime) -> FixedOffset {
    Self::east(if utc.and_utc().timestamp() < AT { A } else { B })
  }
}

/// A window of some minutes that starts some minutes before the change of offset.
fn zone<const AT: i64, const A: i32, const B: i32>(ctx: &mut Ctx, text: &str, before: i64, minutes: i64) {
  let fs = expression(text).unwrap();
  let base = if AT == JUMP { Civil::new(2021, 3, 28, 1, 0, 0) } else { Civil::new(2022, 1, 1, 0, 0, 0) };
  let wall = |k: i64| {
    let ahead = k + if k < 0 { A } else { B } as i64;
    if ahead < 0 {
      back(&base, (-ahead) as u32)
    } else {
      (0..ahead).fold(base, |c, _| c.plus_minute())
    }
  };
  // civil readings, walked once on each side
  let mut want = vec![];
  let (mut c, mut fresh) = (wall(-before), true);
  for k in -before..=minutes - before {
    if k == 0 && !fresh {
      c = wall(0);
    }
    fresh = false;
    if matches(&fs, &c) == Some(true) {
      want.push(k);
    }
    c = c.plus_minute();
  }
  ctx.steps(want.len() as u64 + 2);
  ctx.state(h64(&(text, AT, A, B, before, minutes)));
  ctx.case(
    || format!("{:?}: {} minutes from {} minutes before the offset goes from {:+} to {:+} min at {}", text, minutes, before, A, B, AT),
    || {
      let z: Shift<AT, A, B> = Shift;
      let instant = |k: i64| chrono::TimeZone::timestamp_opt(&z, AT + k * 60, 0).unwrap();
      let spec = CronSpecification::new(CronParser::parse(text).unwrap());
      let iv = CronInterval::new(LimitValue::Limit(instant(-before)), LimitValue::Limit(instant(minutes - before)), spec);
      let mut it = iv.iter(z);
      let sched = CronSchedule::<Shift<AT, A, B>>::new(text)?;
      let mut open = sched.upcoming(instant(-before));
      for k in &want {
        for (n, g) in [("interval", it.next()), ("upcoming", open.next())] {
          if g != Some(instant(*k)) {
            return Err(format!("{}: expected {:?}, got {:?}", n, instant(*k), g));
          }
        }
      }
      match it.next() {
        None => Ok(h64(&want)),
        g => Err(format!("expected the end, got {:?}", g)),
      }
    },
  );
}

/// The iteration runs into the end of the calendar, `before` minutes from the start.
fn calendar_end(ctx: &mut Ctx, text: &str, before: u32, limit: Option<i64>) {
  use chrono::Datelike;
  let last = Civil::new(chrono::NaiveDate::MAX.year(), 12, 31, 23, 59, 0);
  let start = back(&last, before);
  let fs = expression(text).unwrap();
  let limit = limit.map(|l| l.min(before as i64));
  let want = model(&fs, &start, Some(limit.unwrap_or(before as i64) * 60_000), usize::MAX, before as i64);
  ctx.steps(want.len() as u64 + 3);
  ctx.state(h64(&(text, before, limit)));
  ctx.case(
    || format!("{:?} from {} minutes before the last one of the calendar, window {:?} min", text, before, limit),
    || {
      let s = at(&start, 0);
      let sched = CronSchedule::<FixedOffset>::new(text)?;
      let mut its = vec![interval(text, &s, limit.map(|l| s + Duration::minutes(l))).iter(*s.offset())];
      if limit.is_none() {
        its.push(sched.upcoming(s));
      }
      for mut it in its {
        for k in &want {
          let w = s + Duration::minutes(*k);
          match it.next() {
            Some(g) if g == w => {}
            g => return Err(format!("expected {}, got {:?}", w, g)),
          }
        }
        for _ in 0..3 {
          if let Some(g) = it.next() {
            return Err(format!("expected the end of the iteration, got {}", g));
          }
        }
      }
      Ok(h64(&want))
    },
  );
}

/// The adaptors that every iterator has are defined by next().
fn adaptors(ctx: &mut Ctx, text: &str, start: &Civil, minutes: i64) {
  let fs = expression(text).unwrap();
  let want = model(&fs, start, Some(minutes * 60_000), usize::MAX, minutes + 1);
  ctx.steps(want.len() as u64 + 30);
  ctx.state(h64(&(text, start, minutes, "adaptors")));
  ctx.case(
    || format!("{:?} from {:?}, window {} min: count, last, nth, step_by, skip, take, size_hint, fold, min, max, by_ref, peekable, zip, rev of collect", text, start, minutes),
    || {
      let s = at(start, 0);
      let e = s + Duration::minutes(minutes);
      let want: Vec<DateTime<FixedOffset>> = want.iter().map(|k| s + Duration::minutes(*k)).collect();
      let iv = interval(text, &s, Some(e));
      let it = || iv.iter(*s.offset());
      macro_rules! same {
        ($n:literal, $got:expr, $want:expr) => {{
          let (g, w) = ($got, $want);
          if g != w {
            return Err(format!("{}: expected {:?}, got {:?}", $n, w, g));
          }
        }};
      }
      same!("count", it().count(), want.len());
      same!("last", it().last(), want.last().copied());
      same!("max", it().max(), want.last().copied());
      same!("min", it().min(), want.first().copied());
      same!("collect", it().collect::<Vec<_>>(), want.clone());
      same!("fold", it().fold(0u64, |a, x| h64(&(a, x.timestamp()))), want.iter().fold(0u64, |a, x| h64(&(a, x.timestamp()))));
      let (lo, hi) = it().size_hint();
      if lo > want.len() || hi.map_or(false, |h| h < want.len()) {
        return Err(format!("size_hint {:?} for {} instants", (lo, hi), want.len()));
      }
      for n in 0..4usize {
        same!("skip", it().skip(n).collect::<Vec<_>>(), want.iter().skip(n).copied().collect::<Vec<_>>());
        same!("take", it().take(n).collect::<Vec<_>>(), want.iter().take(n).copied().collect::<Vec<_>>());
        same!("step_by", it().step_by(n + 1).collect::<Vec<_>>(), want.iter().step_by(n + 1).copied().collect::<Vec<_>>());
        let (mut a, mut b) = (it(), want.iter());
        for _ in 0..3 {
          same!("nth", a.nth(n), b.nth(n).copied());
        }
        same!("next after nth", a.next(), b.next().copied());
        let mut a = it();
        same!("by_ref take", a.by_ref().take(n).count(), want.len().min(n));
        let (mut c, mut d) = (a.clone(), a);
        same!("rest", c.next(), want.get(n).copied());
        same!("rest of the other", d.next(), want.get(n).copied());
      }
      same!("find", it().find(|x| x.timestamp() % 120 == 0), want.iter().find(|x| x.timestamp() % 120 == 0).copied());
      same!("position", it().position(|x| x.timestamp() % 120 != 0), want.iter().position(|x| x.timestamp() % 120 != 0));
      same!("zip", it().zip(it().skip(1)).count(), want.len().saturating_sub(1));
      let mut p = it().peekable();
      same!("peek", p.peek().copied(), want.first().copied());
      same!("next after peek", p.next(), want.first().copied());
      // the interval is not used up by iterating over it, and says what it was made of
      let mut one = it();
      one.next();
      same!("interval of the iterator", one.cron_interval().iter(*s.offset()).collect::<Vec<_>>(), want.clone());
      same!("timezone", *one.timezone(), *s.offset());
      same!("collect of a clone of the interval", iv.clone().iter(*s.offset()).collect::<Vec<_>>(), want);
      Ok(0)
    },
  );
}

const SCHEDULES: [&str; 34] = [
  "* * * * *", "0 * * * *", "59 * * * *", "*/2 * * * *", "*/7 * * * *", "*/59 * * * *", "1-59/2 * * * *", "0-59/30 0-23/2 * * *", "0 0 * * *", "59 23 * * *", "0,1,59 0,23 * * *", "30 1-3 * * *", "5-7 * * * *",
  "58-59,0-1 * * * *", "* 0 * * *", "* 23 * * *", "* * 1 * *", "* * 31 * *", "* * 28-29 2 *", "0 0 1 1 *", "59 23 31 12 *", "* * * 1 *", "* * * 12 *", "* * * * 1", "* * * * 7", "* * * * L", "0 12 * * 2-6", "* * */2 * *",
  "* * * */3 *", "0 0 29 2 *", "10-5 * * * *", "30 5 * * SUN", "0 0 * * MON-FRI", "*/20 */6 1,15 * *",
];

pub fn c03(ctx: &mut Ctx) {
  let starts: Vec<Civil> = {
    let mut v = vec![];
    for (y, m, d) in [(2021, 1, 1), (2021, 2, 28), (2020, 2, 28), (2020, 2, 29), (2021, 12, 31), (2021, 4, 30), (2022, 1, 1), (2000, 2, 28)] {
      for (h, mi, s) in [(0, 0, 0), (23, 58, 0), (22, 30, 30), (11, 59, 59), (0, 1, 0)] {
        v.push(Civil::new(y, m, d, h, mi, s));
      }
    }
    v
  };
  let offs = [0, 540, -210, 840];
  let max = ctx.pick(150i64, 1500);
  for text in SCHEDULES {
    for start in &starts {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      for (i, off) in offs.iter().enumerate() {
        for m in 0..=max {
          // the four offsets share the work of the larger windows
          if m > 8 && m as usize % 4 != i {
            continue;
          }
          window(ctx, text, start, *off, 0, m * 60_000);
          if m < 4 {
            for extra in [1, 999, 30_000, 59_999] {
              window(ctx, text, start, *off, 0, m * 60_000 + extra);
              window(ctx, text, start, *off, extra % 1000, m * 60_000 + extra);
            }
          }
        }
      }
    }
  }
  // open-ended, iterated in the start's zone and in another one
  for text in SCHEDULES {
    for (i, start) in starts.iter().enumerate() {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      if matches!(text, "10-5 * * * *") {
        continue;
      }
      let sparse = matches!(text, "0 0 29 2 *" | "0 0 1 1 *" | "59 23 31 12 *");
      if sparse && i % 8 != 0 {
        continue;
      }
      let (cap, horizon) = if sparse { (2, 8 * 366 * 1440) } else { (200, 400 * 1440) };
      open_ended(ctx, text, start, 0, 0, cap, horizon);
      if !sparse {
        open_ended(ctx, text, start, 540, 540, 40, horizon);
        open_ended(ctx, text, start, 0, 540, 40, horizon);
        open_ended(ctx, text, start, 540, -210, 40, horizon);
      }
    }
  }
  // long bounded windows: sparse schedules to exhaustion
  for text in ["0 0 29 2 *", "0 0 1 1 *", "59 23 31 12 *", "0 0 31 * *", "0 0 30 * 1", "0 0 * 2 *", "10-5 * * * *", "0 0 31 2 *", "0 0 13 * FRI", "0 6 1-7 1,7 SUN"] {
    // three of them run over the skipped leap days of 1900 and 2100 and the kept one of 2000
    for (y, days) in [(2019, 800), (2023, 500), (1999, 900), (2021, 365), (2020, 366), (1969, 400), (1895, 3400), (2095, 3400), (1996, 1600)] {
      if ctx.full() {
        return;
      }
      if ctx.mine() {
        for m in [1, 2, 12] {
          window(ctx, text, &Civil::new(y, m, 28, 23, 57, 0), 0, 0, days * 86_400_000);
        }
      }
    }
  }
  // zones whose offset changes on the way
  for text in SCHEDULES.iter().chain(&["30 2 * * *", "30 1-3 28 3 *", "0-30/10 2 * * SUN", "59 1 * * *", "0 3 * * *"]) {
    if ctx.full() {
      return;
    }
    if !ctx.mine() || matches!(*text, "10-5 * * * *") {
      continue;
    }
    for before in [0, 1, 5, 59, 60, 61, 125, 1500] {
      for minutes in [0, 1, 60, 61, 122, 180, 1600, 4500] {
        zone::<JUMP, 60, 120>(ctx, text, before, minutes);
        zone::<JUMP, 120, 60>(ctx, text, before, minutes);
        zone::<JUMP, -210, -180>(ctx, text, before, minutes);
        zone::<MIDNIGHT, -720, 840>(ctx, text, before, minutes);
        zone::<MIDNIGHT, 60, 0>(ctx, text, before, minutes);
      }
    }
  }
  // up to the last minute of the calendar and not beyond
  for text in SCHEDULES {
    if ctx.full() {
      return;
    }
    if !ctx.mine() {
      continue;
    }
    for before in [0, 1, 2, 29, 59, 60, 61, 119, 1439, 1440, 1441, 10_080, 44_640, 44_641, 90_000] {
      for limit in [None, Some(0), Some(1), Some(60), Some(i64::MAX)] {
        calendar_end(ctx, text, before, limit);
      }
    }
  }
  for text in SCHEDULES {
    for start in &starts {
      if ctx.full() {
        return;
      }
      if ctx.mine() {
        for minutes in [0, 1, 2, 5, 61, 130, 1500] {
          adaptors(ctx, text, start, minutes);
        }
      }
    }
  }
  // histories over an iterator and clones taken from it
  let depth = ctx.pick(7, 9);
  for text in ["* * * * *", "*/2 * * * *", "0 * * * *", "59 23 * * *", "1,3-4 * * * *"] {
    for limit in [Some(3i64), Some(0), Some(61), None] {
      for mask in 0..3u32.pow(depth as u32) {
        if ctx.full() {
          return;
        }
        if mask % 81 == 0 && !ctx.mine() {
          continue;
        }
        if mask % 81 != 0 && !ctx.last_mine() {
          continue;
        }
        let ops: Vec<u32> = (0..depth).map(|i| mask / 3u32.pow(i as u32) % 3).collect();
        let start = Civil::new(2021, 2, 28, 23, 58, 0);
        let fs = expression(text).unwrap();
        let seq = model(&fs, &start, limit.map(|l| l * 60_000), depth + 1, 20_000);
        ctx.steps(depth as u64);
        ctx.state(h64(&(text, limit, mask)));
        ctx.case(
          || format!("{:?} window {:?} min, history {:?} (0 next, 1 clone, 2 next on the clone)", text, limit, ops),
          || {
            let s = at(&start, 0);
            let iv = interval(text, &s, limit.map(|l| s + Duration::minutes(l)));
            let mut a = iv.iter(*s.offset());
            let mut b = a.clone();
            let (mut na, mut nb) = (0usize, 0usize);
            for (i, op) in ops.iter().enumerate() {
              let (got, n) = match op {
                0 => {
                  na += 1;
                  (a.next(), na - 1)
                }
                2 => {
                  nb += 1;
                  (b.next(), nb - 1)
                }
                _ => {
                  b = a.clone();
                  nb = na;
                  continue;
                }
              };
              let want = seq.get(n).map(|k| s + Duration::minutes(*k));
              if got != want {
                return Err(format!("operation {}: expected {:?}, got {:?}", i + 1, want, got));
              }
            }
            Ok(h64(&(na, nb)))
          },
        );
      }
    }
  }
}
