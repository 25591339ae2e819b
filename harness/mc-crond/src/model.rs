//! Reference model of the five-field cron language: recogniser, calendar, field semantics.
//! Written from the property statements, sharing no code with the crate under test.

use oni_comb_crond_rs::CronExpr;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
  N(u8),
  L,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Item {
  One(V),
  Range(V, V, Option<V>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Field {
  Star,
  StarStep(V),
  List(Vec<Item>),
}

pub const MINUTE: usize = 0;
pub const HOUR: usize = 1;
pub const DAY: usize = 2;
pub const MONTH: usize = 3;
pub const DOW: usize = 4;
/// lowest and highest value of each field
pub const LO: [u8; 5] = [0, 0, 1, 1, 1];
pub const HI: [u8; 5] = [59, 23, 31, 12, 7];
pub const NAMES: [&str; 7] = ["SUN", "MON", "TUE", "WED", "THU", "FRI", "SAT"];

fn value(pos: usize, s: &str) -> Option<V> {
  if pos == DOW {
    if s == "L" {
      return Some(V::L);
    }
    if let Some(i) = NAMES.iter().position(|n| *n == s) {
      return Some(V::N(i as u8 + 1));
    }
    return match s.as_bytes() {
      [d] if (b'1'..=b'7').contains(d) => Some(V::N(d - b'0')),
      _ => None,
    };
  }
  let b = s.as_bytes();
  if b.is_empty() || b.len() > 2 || !b.iter().all(|c| c.is_ascii_digit()) {
    return None;
  }
  let n = b.iter().fold(0u8, |a, c| a * 10 + (c - b'0'));
  if LO[pos] <= n && n <= HI[pos] {
    Some(V::N(n))
  } else {
    None
  }
}

fn item(pos: usize, s: &str) -> Option<Item> {
  match s.find('-') {
    None => value(pos, s).map(Item::One),
    Some(i) => {
      let a = value(pos, &s[..i])?;
      let rest = &s[i + 1..];
      match rest.find('/') {
        None => Some(Item::Range(a, value(pos, rest)?, None)),
        Some(j) => Some(Item::Range(a, value(pos, &rest[..j])?, Some(value(pos, &rest[j + 1..])?))),
      }
    }
  }
}

pub fn field(pos: usize, s: &str) -> Option<Field> {
  if s == "*" {
    return Some(Field::Star);
  }
  if let Some(r) = s.strip_prefix("*/") {
    return value(pos, r).map(Field::StarStep);
  }
  let items: Option<Vec<Item>> = s.split(',').map(|x| item(pos, x)).collect();
  items.map(Field::List)
}

pub fn expression(s: &str) -> Option<Vec<Field>> {
  let parts: Vec<&str> = s.split(' ').collect();
  if parts.len() != 5 {
    return None;
  }
  parts.iter().enumerate().map(|(i, p)| field(i, p)).collect()
}

fn v_of(e: &CronExpr) -> Option<V> {
  match e {
    CronExpr::ValueExpr(n) => Some(V::N(*n)),
    CronExpr::LastValueExpr => Some(V::L),
    _ => None,
  }
}

fn item_of(e: &CronExpr) -> Option<Item> {
  match e {
    CronExpr::RangeExpr { from, to, per_option } => {
      let step = match &**per_option {
        CronExpr::NoOp => None,
        x => Some(v_of(x)?),
      };
      Some(Item::Range(v_of(from)?, v_of(to)?, step))
    }
    x => v_of(x).map(Item::One),
  }
}

fn field_of(e: &CronExpr) -> Option<Field> {
  match e {
    CronExpr::AnyValueExpr => Some(Field::Star),
    CronExpr::PerExpr { digit, option } if **digit == CronExpr::AnyValueExpr => Some(Field::StarStep(v_of(option)?)),
    CronExpr::ListExpr(v) if v.len() >= 2 => v.iter().map(item_of).collect::<Option<Vec<_>>>().map(Field::List),
    x => item_of(x).map(|i| Field::List(vec![i])),
  }
}

/// What a parsed expression says, or None when it is not of the five-field shape.
pub fn read_back(e: &CronExpr) -> Option<Vec<Field>> {
  match e {
    CronExpr::CronExpr { mins, hours, days, months, day_of_weeks } => {
      [mins, hours, days, months, day_of_weeks].iter().map(|f| field_of(f)).collect()
    }
    _ => None,
  }
}

// ------------------------------------------------------------------ semantics

/// L stands for the last weekday.
fn admits_item(i: &Item, now: u8) -> Option<bool> {
  Some(match i {
    Item::One(V::N(n)) => now == *n,
    Item::One(V::L) => now == 7,
    Item::Range(V::N(a), V::N(b), None) => *a <= now && now <= *b,
    Item::Range(V::N(_), V::N(_), Some(V::N(0))) => false,
    Item::Range(V::N(a), V::N(b), Some(V::N(s))) => *a <= now && now <= *b && (now - a) % s == 0,
    // L as the end of a range or as a step: only the absence of a crash is claimed
    _ => return None,
  })
}

/// Some(answer), or None when the property claims no answer for this field.
pub fn admits(pos: usize, f: &Field, now: u8) -> Option<bool> {
  match f {
    Field::Star => Some(true),
    Field::StarStep(V::N(0)) => Some(false),
    Field::StarStep(V::N(s)) => Some((now - LO[pos]) % s == 0),
    Field::StarStep(V::L) => None,
    Field::List(v) => {
      let mut any = false;
      for i in v {
        any |= admits_item(i, now)?;
      }
      Some(any)
    }
  }
}

pub fn matches(fs: &[Field], c: &Civil) -> Option<bool> {
  matches_on(fs, c, c.weekday())
}

pub fn matches_on(fs: &[Field], c: &Civil, weekday: u8) -> Option<bool> {
  let now = [c.minute, c.hour, c.day, c.month, weekday];
  let mut all = true;
  for i in 0..5 {
    all &= admits(i, &fs[i], now[i])?;
  }
  Some(all)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Civil {
  pub year: i32,
  pub month: u8,
  pub day: u8,
  pub hour: u8,
  pub minute: u8,
  pub second: u8,
}

/// days since 1970-01-01 of a proleptic Gregorian date
pub fn days_from_civil(y: i32, m: u8, d: u8) -> i64 {
  // days of the years before y since year 0, shifted to 1970
  let before = |y: i64| 365 * y + (y + 3).div_euclid(4) - (y + 99).div_euclid(100) + (y + 399).div_euclid(400);
  let mut days = before(y as i64) - before(1970);
  for k in 1..m {
    days += month_len(y, k) as i64;
  }
  days + d as i64 - 1
}

pub fn month_len(y: i32, m: u8) -> u8 {
  match m {
    1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
    2 if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 => 29,
    2 => 28,
    _ => 30,
  }
}

impl Civil {
  pub fn new(year: i32, month: u8, day: u8, hour: u8, minute: u8, second: u8) -> Civil {
    Civil { year, month, day, hour, minute, second }
  }
  /// 1970-01-01 was a Thursday; Sunday = 1 .. Saturday = 7
  pub fn weekday(&self) -> u8 {
    ((days_from_civil(self.year, self.month, self.day) + 4).rem_euclid(7)) as u8 + 1
  }
  pub fn plus_minute(&self) -> Civil {
    let mut c = *self;
    c.minute += 1;
    if c.minute == 60 {
      c.minute = 0;
      c.hour += 1;
    }
    if c.hour == 24 {
      c.hour = 0;
      c.day += 1;
    }
    if c.day > month_len(c.year, c.month) {
      c.day = 1;
      c.month += 1;
    }
    if c.month == 13 {
      c.month = 1;
      c.year += 1;
    }
    c
  }
}
