//! H01 (scalars) and H04 (durations).

use crate::view::*;
use mc_core::{for_words, h64, Ctx};
use oni_comb_hocon_rs::model::{ConfigDurationValue, ConfigNumberValue};
use rust_decimal::Decimal;
use std::time::Duration;

// ------------------------------------------------------------------ numbers

/// JSON number grammar and its exact value as mantissa and scale (negative scale = trailing zeros).
/// None: not a number. Some(None): a number outside what is asserted about.
fn json_number(w: &str) -> Option<Option<V>> {
  let b = w.as_bytes();
  let mut i = 0;
  let neg = b.first() == Some(&b'-');
  if neg {
    i += 1;
  }
  let start = i;
  while i < b.len() && b[i].is_ascii_digit() {
    i += 1;
  }
  let ip = &w[start..i];
  if ip.is_empty() || (ip.len() > 1 && ip.starts_with('0')) {
    return None;
  }
  let mut frac = "";
  if i < b.len() && b[i] == b'.' {
    let f = i + 1;
    i = f;
    while i < b.len() && b[i].is_ascii_digit() {
      i += 1;
    }
    frac = &w[f..i];
    if frac.is_empty() {
      return None;
    }
  }
  let mut exp: i64 = 0;
  if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
    i += 1;
    let mut eneg = false;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
      eneg = b[i] == b'-';
      i += 1;
    }
    let e = i;
    while i < b.len() && b[i].is_ascii_digit() {
      i += 1;
    }
    if e == i {
      return None;
    }
    exp = w[e..i].parse().unwrap_or(1 << 30);
    if eneg {
      exp = -exp;
    }
  }
  if i != b.len() {
    return None;
  }
  let mut m: i128 = match format!("{}{}", ip, frac).parse() {
    Ok(m) => m,
    Err(_) => return Some(None),
  };
  let mut scale = frac.len() as i64 - exp;
  if exp.abs() > 28 || scale > 28 {
    return Some(None);
  }
  while scale < 0 {
    m = match m.checked_mul(10) {
      Some(m) => m,
      None => return Some(None),
    };
    scale += 1;
  }
  if m >= 1i128 << 96 {
    return Some(None);
  }
  if neg {
    m = -m;
  }
  Some(Some(num(m, scale as u32)))
}

fn number_word(ctx: &mut Ctx, w: &str) {
  let want = json_number(w);
  ctx.state(h64(&("n", w)));
  for (pre, post, path) in [("a=", "", "a"), ("{ \"a\" : ", " }", "a"), ("a.b = [", "]", "a.b")] {
    let text = format!("{}{}{}", pre, w, post);
    ctx.steps(w.len() as u64);
    ctx.case(
      || format!("number {:?}", text),
      || {
        let got = match load_view(&text) {
          Err(e) => match &want {
            Some(Some(v)) => return Err(format!("{}; expected {:?}", e, v)),
            _ => None,
          },
          Ok(v) => at(&v, path).cloned(),
        };
        let got = match got {
          Some(V::Arr(mut a)) if path == "a.b" => {
            if a.len() != 1 {
              return Err(format!("one element written, {} read: {:?}", a.len(), a));
            }
            a.pop()
          }
          g => g,
        };
        match (&want, &got) {
          (Some(Some(v)), Some(g)) if v == g => Ok(h64(g)),
          (Some(Some(v)), g) => Err(format!("expected {:?}, got {:?}", v, g)),
          // out of range: anything but a number of another value
          (Some(None), Some(V::Num(m, sc))) => {
            let err = (*m as f64 / 10f64.powi(*sc as i32)) / w.parse::<f64>().unwrap_or(0.0) - 1.0;
            if err.abs() < 1e-9 || w.parse::<f64>().map_or(false, |x| x.abs() < 1e-20) {
              Ok(1)
            } else {
              Err(format!("read as the number {:?}", got))
            }
          }
          (Some(None), _) | (None, None) => Ok(2),
          (None, Some(V::Str(t))) if t == w => Ok(3),
          (None, Some(g)) => Err(format!("not a number, read as {:?}", g)),
        }
      },
    );
  }
}

macro_rules! conversions {
  ($d:expr, $cnv:expr, $($t:ident $to:ident)*) => {{
    let mut out = vec![];
    $(
      let want = <$t>::try_from($d).ok();
      let got = $cnv.$to();
      if want != got {
        return Err(format!(concat!(stringify!($to), " of {}: expected {:?}, got {:?}"), $d, want, got));
      }
      out.push(got.is_some());
    )*
    Ok::<Vec<bool>, String>(out)
  }};
}

fn conversions_of(n: i128, cnv: &ConfigNumberValue) -> Result<u64, String> {
  let out = conversions!(n, cnv, i8 to_i8 u8 to_u8 i16 to_i16 u16 to_u16 i32 to_i32 u32 to_u32 i64 to_i64 u64 to_u64 i128 to_i128 u128 to_u128)?;
  for (name, got, eps) in [("to_f64", cnv.to_f64(), 1e-14), ("to_f32", cnv.to_f32().map(|x| x as f64), 1e-6)] {
    match got {
      Some(x) if (x - n as f64).abs() <= (n as f64).abs() * eps => {}
      g => return Err(format!("{} of {}: got {:?}", name, n, g)),
    }
  }
  Ok(h64(&out))
}

fn limits() -> Vec<i128> {
  let max = (1i128 << 96) - 1;
  let mut v = vec![0, max, -max, max - 1];
  for bits in [7, 8, 15, 16, 31, 32, 63, 64] {
    for d in -2..=2 {
      v.push((1i128 << bits) + d);
      v.push(-(1i128 << bits) + d);
    }
  }
  for p in 0..29 {
    v.push(10i128.pow(p).min(max));
    v.push(-(10i128.pow(p).min(max)));
  }
  v.extend(-3..=3);
  v.sort();
  v.dedup();
  v
}

macro_rules! from_each {
  ($n:expr, $($t:ident)*) => {{
    let mut out: Vec<(&'static str, ConfigNumberValue)> = vec![];
    $(for x in <$t>::try_from($n) { out.push((stringify!($t), ConfigNumberValue::from(x))); })*
    out
  }};
}

fn numbers(ctx: &mut Ctx) {
  let alphabet = ["0", "1", "9", ".", "-", "e", "E", "+"];
  let max = ctx.pick(5, 6);
  let mut n = 0u64;
  let mut mine = false;
  for_words(&alphabet, max, &mut |w, _| {
    if n % 64 == 0 {
      mine = ctx.mine() && !ctx.full();
    }
    n += 1;
    if mine && !w.is_empty() {
      number_word(ctx, w);
    }
  });
  // every integer part x fraction x exponent of a catalogue of lengths and edges
  let ints = ["0", "7", "10", "12345678901234567890", "79228162514264337593543950335", "79228162514264337593543950336", "99999999999999999999999999999", "123456789012345678901234567890123456789012"];
  let fracs = ["", ".0", ".5", ".25", ".000", ".123456789", ".0000000001", ".9999999999999999999999999999", ".10"];
  let exps = ["", "e0", "E1", "e+1", "e-1", "e5", "e-5", "E+05", "e10", "e-10", "e18", "e19", "e20", "e27", "e28", "e-28", "e29", "e-29", "e99", "e-99", "e999999999999", "e-999999999999"];
  for sign in ["", "-"] {
    for i in ints {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      for f in fracs {
        for e in exps {
          number_word(ctx, &format!("{}{}{}{}", sign, i, f, e));
        }
      }
    }
  }
  // conversions
  for n in limits() {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    let mut spellings = vec![format!("{}", n), format!("{}.0", n), format!("{}e0", n)];
    if n % 10 == 0 {
      spellings.push(format!("{}e1", n / 10));
    }
    if n != 0 && n.abs() < 10i128.pow(27) {
      spellings.push(format!("{}0e-1", n));
    }
    for w in spellings {
      ctx.state(h64(&("c", &w)));
      ctx.steps(12);
      ctx.case(
        || format!("convert {:?}", w),
        || {
          let text = format!("a = {}", w);
          let c = load(&text)?;
          let v = c.get_value("a").ok_or("no value")?;
          let cnv = v.as_config_number_value().ok_or_else(|| format!("not a number: {:?}", v))?;
          conversions_of(n, cnv)
        },
      );
    }
    ctx.case(
      || format!("from the integer {}", n),
      || {
        let mut all = from_each!(n, i8 u8 i16 u16 i32 u32 i64 u64 i128);
        if n >= 0 {
          all.push(("u128", ConfigNumberValue::from(n as u128)));
        }
        if let Ok(u) = usize::try_from(n) {
          all.push(("usize", ConfigNumberValue::from(u)));
        }
        all.push(("String", ConfigNumberValue::from(n.to_string())));
        all.push(("Decimal", ConfigNumberValue::from(Decimal::from_i128_with_scale(n, 0))));
        for (t, cnv) in &all {
          if cnv.as_decimal().to_string() != n.to_string() || cnv.to_string() != n.to_string() {
            return Err(format!("from {}: {}", t, cnv));
          }
          conversions_of(n, cnv)?;
        }
        Ok(h64(&all.len()))
      },
    );
  }
  for (x, t) in [(0.5f64, "0.5"), (-0.25, "-0.25"), (1.0, "1"), (1024.125, "1024.125"), (0.0, "0")] {
    if ctx.mine() {
      ctx.case(
        || format!("from the float {}", x),
        || {
          let a = ConfigNumberValue::from(x);
          let b = ConfigNumberValue::from(x as f32);
          for c in [&a, &b] {
            if c.as_decimal().normalize().to_string() != t || c.to_f64() != Some(x) || c.to_f32() != Some(x as f32) {
              return Err(format!("{} became {:?}", x, c));
            }
          }
          Ok(1)
        },
      );
    }
  }
}

// ------------------------------------------------------------------ strings

/// Ways to write a string in quotes.
fn quoted_spellings(text: &str) -> Vec<String> {
  let mut out = vec![];
  for q in ['"', '\''] {
    let mut plain = String::new();
    let mut unicode = String::new();
    let mut mixed = String::new();
    for (i, c) in text.chars().enumerate() {
      let esc = match c {
        '\n' => "\\n".to_string(),
        '\r' => "\\r".to_string(),
        '\t' if q == '"' => "\\t".to_string(),
        '\u{8}' => "\\b".to_string(),
        '\u{c}' => "\\f".to_string(),
        '\\' => "\\\\".to_string(),
        '"' if q == '"' => "\\\"".to_string(),
        '/' if q == '\'' => "\\/".to_string(),
        '\'' if q == '\'' => "\\u0027".to_string(),
        c => c.to_string(),
      };
      let mut units = [0u16; 2];
      let hex: String = c.encode_utf16(&mut units).iter().map(|u| if i % 2 == 0 { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) }).collect();
      plain.push_str(&esc);
      unicode.push_str(&hex);
      mixed.push_str(if i % 2 == 0 { &hex } else { &esc });
    }
    for body in [plain, unicode, mixed] {
      out.push(format!("{}{}{}", q, body, q));
    }
  }
  out.dedup();
  out
}

fn surroundings(v: &str, want: V) -> Vec<(String, V)> {
  let one = obj(&[("a", want.clone())]);
  vec![
    (format!("a={}", v), one.clone()),
    (format!("a = {}\nb = 1", v), obj(&[("a", want.clone()), ("b", int(1))])),
    (format!("{{\"a\":{}}}", v), one),
    (format!("a : [ {} , {} ]", v, v), obj(&[("a", V::Arr(vec![want.clone(), want.clone()]))])),
    (format!("o {{ a = {} }}", v), obj(&[("o", obj(&[("a", want)]))])),
  ]
}

fn written(ctx: &mut Ctx, kind: &str, v: &str, want: &V, all: bool) {
  ctx.state(h64(&(kind, v)));
  for (text, want) in surroundings(v, want.clone()).into_iter().take(if all { 5 } else { 2 }) {
    ctx.steps(v.len() as u64);
    ctx.case(|| format!("{} {:?}", kind, text), || expect(&text, &want));
  }
}

fn strings(ctx: &mut Ctx) {
  let alphabet = ["x", " ", "\"", "'", "\\", "[", "]", "{", "}", "#", "/", ":", "=", ",", "$", "1", ".", "\n", "\t", "\r", "\u{8}", "\u{c}", "é", "あ", "😀", "n", "u", "?", "-"];
  let max = ctx.pick(2, 3);
  let mut n = 0u64;
  let mut mine = false;
  for_words(&alphabet, max, &mut |w, len| {
    if n % 32 == 0 {
      mine = ctx.mine() && !ctx.full();
    }
    n += 1;
    if mine {
      for v in quoted_spellings(w) {
        written(ctx, "quoted", &v, &s(w), len <= 2);
      }
    }
  });
  // longer ones around the delimiters
  let small = ["x", " ", "\"", "\\", "#", "}", "é"];
  let max = ctx.pick(4, 5);
  for_words(&small, max, &mut |w, _| {
    if n % 64 == 0 {
      mine = ctx.mine() && !ctx.full();
    }
    n += 1;
    if mine {
      for v in quoted_spellings(w) {
        written(ctx, "quoted", &v, &s(w), false);
      }
    }
  });
  // quoted keys
  for_words(&["x", "1", " ", "é", "#", "\"", "[", "-", "."], 3, &mut |w, _| {
    if n % 32 == 0 {
      mine = ctx.mine() && !ctx.full();
    }
    n += 1;
    if mine {
      for k in quoted_spellings(w) {
        for text in [format!("{{{}:1}}", k), format!("{} = 1", k), format!("b = 2\n{} : 1\n", k)] {
          let mut want = obj(&[(w, int(1))]);
          if let (V::Obj(m), true) = (&mut want, text.starts_with('b')) {
            m.insert("b".into(), int(2));
          }
          ctx.state(h64(&("key", &text)));
          ctx.steps(1);
          ctx.case(|| format!("key {:?}", text), || expect(&text, &want));
        }
      }
    }
  });
  // every character as a key and within one, words with a meaning elsewhere as keys
  let words = ["null", "true", "false", "include", "10s", "1.5", "-1", "${a}", "${?a}", "{}", "[]", "//x", "a=b", "a:b", "a,b", "\t", "a.b.c", "=", ":"];
  for w in (0u32..0x180).filter_map(char::from_u32).flat_map(|c| [c.to_string(), format!("x{}y", c)]).chain(words.iter().map(|w| w.to_string())) {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    let k = format!("\"{}\"", w.chars().map(|c| if c < ' ' || c == '"' || c == '\\' || c == '\u{7f}' { format!("\\u{:04x}", c as u32) } else { c.to_string() }).collect::<String>());
    for (text, want) in [
      (format!("{{{}:1}}", k), obj(&[(&w, int(1))])),
      (format!("p {{ {} = 1 }}", k), obj(&[("p", obj(&[(&w, int(1))]))])),
      (format!("{} {{ q = 1 }}", k), obj(&[(&w, obj(&[("q", int(1))]))])),
      (format!("{} = 1, {} = 2", k, k), obj(&[(&w, int(2))])),
      (format!("{} {{ q = 1 }}\n{} {{ r = 2 }}", k, k), obj(&[(&w, obj(&[("q", int(1)), ("r", int(2))]))])),
      (format!("p = [{{ {} : 1 }}]", k), obj(&[("p", V::Arr(vec![obj(&[(&w, int(1))])]))])),
    ] {
      ctx.state(h64(&("any key", &text)));
      ctx.steps(1);
      ctx.case(|| format!("any key {:?}", text), || expect(&text, &want));
    }
  }
  // unquoted words: begin with a letter, inner blanks kept, outer ones dropped
  let letters = ["x", "t", "n", "1", "-", "_", ".", "/", " ", "é", "(", "~", "%", "e"];
  let max = ctx.pick(4, 5);
  for_words(&letters, max, &mut |w, len| {
    if n % 64 == 0 {
      mine = ctx.mine() && !ctx.full();
    }
    n += 1;
    let c = w.chars().next();
    if mine && matches!(c, Some('x') | Some('t') | Some('n') | Some('é') | Some('e')) && !w.contains("//") {
      written(ctx, "unquoted", w, &s(w.trim()), len <= 3);
    }
  });
}

/// Every escape there is, in both kinds of quotes, and every code point.
fn characters(ctx: &mut Ctx) {
  let escapes = [("\\\\", "\\"), ("\\/", "/"), ("\\\"", "\""), ("\\'", "'"), ("\\b", "\u{8}"), ("\\f", "\u{c}"), ("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("x", "x")];
  for q in ['"', '\''] {
    for (e1, c1) in escapes {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      for (e2, c2) in escapes {
        for (e3, c3) in escapes {
          let v = format!("{}{}{}{}{}", q, e1, e2, e3, q);
          written(ctx, "escapes", &v, &s(&format!("{}{}{}", c1, c2, c3)), false);
        }
      }
    }
  }
  // a code unit after another; those without their pair read as U+FFFD
  let units = |ctx: &mut Ctx, us: &[u16]| {
    let want: String = std::char::decode_utf16(us.iter().copied()).map(|c| c.unwrap_or('\u{fffd}')).collect();
    for upper in [false, true] {
      let hex: String = us.iter().map(|u| if upper { format!("\\u{:04X}", u) } else { format!("\\u{:04x}", u) }).collect();
      let text = format!("a={q}{}{q}", hex, q = if upper { '\'' } else { '"' });
      ctx.steps(1);
      ctx.case(|| format!("units {:?}", text), || expect(&text, &obj(&[("a", s(&want))])));
    }
    ctx.state(h64(&us));
  };
  for u in 0..=0xffffu16 {
    if u % 256 == 0 {
      ctx.mine();
    }
    if !ctx.last_mine() || ctx.full() {
      continue;
    }
    units(ctx, &[u]);
    if (0xd800..0xe000).contains(&u) {
      for v in [0xd800, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0x41] {
        units(ctx, &[u, v]);
        units(ctx, &[v, u]);
      }
    }
  }
  // every character as itself, between the others
  let step = ctx.pick(97, 1);
  let mut c = 0u32;
  let mut n = 0u64;
  while c <= 0x10ffff {
    if n % 256 == 0 {
      ctx.mine();
    }
    n += 1;
    if let (Some(ch), true) = (char::from_u32(c), ctx.last_mine() && !ctx.full()) {
      if !matches!(ch, '"' | '\\' | '\r' | '\n') {
        for w in [ch.to_string(), format!("x{}y", ch)] {
          written(ctx, "character", &format!("\"{}\"", w), &s(&w), false);
        }
      }
    }
    c += if c < 0x3000 || (0xd700..0x10000).contains(&c) { 1 } else { step };
  }
}

fn keywords(ctx: &mut Ctx) {
  let base = [("null", V::Null), ("true", V::Bool(true)), ("false", V::Bool(false))];
  for (k, v) in &base {
    if !ctx.mine() {
      continue;
    }
    for pre in ["", " ", "\t", "  "] {
      for post in ["", " ", "\t "] {
        written(ctx, "keyword", &format!("{}{}{}", pre, k, post), v, true);
      }
    }
    for post in [" # c\n", " // c\n", "#c\n"] {
      written(ctx, "keyword", &format!("{}{}", k, post), v, true);
    }
    // words that only look like it
    for i in 1..k.len() {
      written(ctx, "word", &k[..i], &s(&k[..i]), true);
    }
    for tail in ["x", "s", "1", "_", "-", ".", "é", "null", "true", "false", "e", "(", "/"] {
      let w = format!("{}{}", k, tail);
      written(ctx, "word", &w, &s(&w), true);
      let w = format!("x{}", w);
      written(ctx, "word", &w, &s(&w), true);
    }
    let w = k.to_uppercase();
    written(ctx, "word", &w, &s(&w), true);
    for q in ['"', '\''] {
      written(ctx, "quoted", &format!("{}{}{}", q, k, q), &s(k), true);
    }
  }
  for w in ["1", "-1", "1.5", "1e3", "5s", "5 days", "0"] {
    if ctx.mine() {
      for q in ['"', '\''] {
        written(ctx, "quoted", &format!("{}{}{}", q, w, q), &s(w), true);
      }
    }
  }
}

pub fn h01(ctx: &mut Ctx) {
  keywords(ctx);
  crate::large::h01(ctx);
  characters(ctx);
  strings(ctx);
  numbers(ctx);
}

// ------------------------------------------------------------------ durations

const UNITS: [(&str, u128); 26] = [
  ("ns", 1), ("nano", 1), ("nanos", 1), ("nanosecond", 1), ("nanoseconds", 1),
  ("us", 1_000), ("micro", 1_000), ("micros", 1_000), ("microsecond", 1_000), ("microseconds", 1_000),
  ("ms", 1_000_000), ("milli", 1_000_000), ("millis", 1_000_000), ("millisecond", 1_000_000), ("milliseconds", 1_000_000),
  ("s", 1_000_000_000), ("second", 1_000_000_000), ("seconds", 1_000_000_000),
  ("m", 60_000_000_000), ("minute", 60_000_000_000), ("minutes", 60_000_000_000),
  ("h", 3_600_000_000_000), ("hour", 3_600_000_000_000), ("hours", 3_600_000_000_000),
  ("d", 86_400_000_000_000), ("day", 86_400_000_000_000),
];

/// The largest span of chrono is i64::MAX milliseconds.
fn span_check(d: &ConfigDurationValue, nanos: u128, exact: bool) -> Result<(), String> {
  let std = d.to_std_duration();
  let max_std = (u64::MAX as u128) * 1_000_000_000 + 999_999_999;
  match &std {
    Ok(x) if x.as_nanos() == nanos => {}
    Err(_) if nanos > max_std || !exact => {}
    x => return Err(format!("std span: expected {} ns, got {:?}", nanos, x)),
  }
  let max_chrono = (i64::MAX as u128) * 1_000_000;
  match d.to_duration() {
    Ok(c) => {
      let got = c.num_seconds() as i128 * 1_000_000_000 + c.subsec_nanos() as i128;
      if got != nanos as i128 {
        return Err(format!("chrono span: expected {} ns, got {:?}", nanos, c));
      }
    }
    Err(e) if nanos <= max_chrono && exact => return Err(format!("chrono span refused: {}", e)),
    Err(_) => {}
  }
  Ok(())
}

pub fn h04(ctx: &mut Ctx) {
  let mut units: Vec<(&str, u128)> = UNITS.to_vec();
  units.push(("days", 86_400_000_000_000));
  let mut ints: Vec<u128> = vec![0, 1, 2, 5, 7, 9, 10, 11, 12, 23, 24, 25, 30, 59, 60, 61, 90, 99, 100, 101, 365, 999, 1000, 1001, 3600, 86399, 86400, 106751, 106752, 123456, 1_000_000, 16777217, 123456789, 1_000_000_007, 9007199254740993];
  for k in [31u32, 32, 63, 64] {
    for d in -1i128..=1 {
      ints.push(((1i128 << k) + d) as u128);
    }
  }
  for k in 1..=24 {
    ints.push(10u128.pow(k));
  }
  if ctx.thorough() {
    ints.extend(0..2000);
  } else {
    ints.extend(0..130);
  }
  ints.sort();
  ints.dedup();
  let gaps = ["", " ", "  ", "\t", " \t "];
  let fracs: [(&str, u128, u128); 6] = [(".5", 1, 2), (".0", 0, 1), (".25", 1, 4), (".125", 1, 8), (".1", 1, 10), (".75", 3, 4)];
  for (u, ns) in &units {
    for n in &ints {
      if !ctx.mine() || ctx.full() {
        continue;
      }
      let mut words: Vec<(String, u128)> = gaps.iter().map(|g| (format!("{}{}{}", n, g, u), n * ns)).collect();
      if *n < 1000 {
        for (f, a, b) in fracs {
          if (a * ns) % b == 0 {
            words.push((format!("{}{}{}", n, f, u), n * ns + a * ns / b));
            words.push((format!("{}{} {}", n, f, u), n * ns + a * ns / b));
          }
        }
        words.push((format!("{}e2{}", n, u), n * 100 * ns));
      }
      if *n >= 13 {
        // many digits on both sides of the point
        for digits in ["1", "5", "25", "001", "999", "123456789", "000000001", "999999999", "123456", "500000", "0000", "3000000", "250000000000"] {
          let (all, down) = (format!("{}{}", n, digits).parse::<u128>().unwrap(), 10u128.pow(digits.len() as u32));
          if all < 1 << 90 && all.checked_mul(*ns).is_some_and(|x| x % down == 0 && x < 1 << 95) {
            words.push((format!("{}.{}{}", n, digits, u), all * ns / down));
            words.push((format!("{}.{}\t{}", n, digits, u), all * ns / down));
          }
        }
      }
      if *n < 4 || *n == 1000 {
        for k in (3..=20usize).chain([63, 64, 65, 127, 128, 255, 256, 1000]) {
          for g in [" ", "\t", " \t"] {
            words.push((format!("{}{}{}", n, &g.repeat(k)[..k], u), n * ns));
          }
        }
      }
      if *n < 13 {
        // fractions and exponents of every spelling: n + a/b, times ten to the e
        for (digits, e) in [("1", ""), ("5", ""), ("05", ""), ("50", ""), ("001", ""), ("500", ""), ("999", ""), ("000001", ""), ("123456789", ""), ("000000001", ""), ("0000000000", ""), ("5", "e0"), ("5", "E1"), ("25", "e+2"), ("500", "e-1"), ("", "e-1"), ("", "e-3"), ("", "E+3"), ("", "e00"), ("", "e9"), ("", "E-9"), ("75", "e03")] {
          let exp: i32 = if e.is_empty() { 0 } else { e[1..].parse().unwrap() };
          let all: u128 = format!("{}{}", n, digits).parse().unwrap();
          let scale = exp - digits.len() as i32;
          let (up, down) = (10u128.pow(scale.max(0) as u32), 10u128.pow((-scale).max(0) as u32));
          if (all * up * ns) % down == 0 {
            let t = if digits.is_empty() { format!("{}{}", n, e) } else { format!("{}.{}{}", n, digits, e) };
            words.push((format!("{}{}", t, u), all * up * ns / down));
            words.push((format!("{} {}", t, u), all * up * ns / down));
          }
        }
      }
      for (w, nanos) in words {
        ctx.state(h64(&w));
        for (pre, post, path) in [("a=", "", "a"), ("{\"a\" : ", "}", "a"), ("o { x = 1, a = ", " // c\n y = 2 }", "o.a"), ("a = ", "\nb = 1", "a")] {
          let text = format!("{}{}{}", pre, w, post);
          ctx.steps(2);
          ctx.case(
            || format!("duration {:?}", text),
            || {
              let c = load(&text)?;
              let v = c.get_value(path).ok_or("no value")?;
              let d = v.as_config_duration_value().ok_or_else(|| format!("not a duration: {:?}", v))?;
              span_check(d, nanos, true)?;
              if v.as_std_duration() != d.to_std_duration().ok() || v.as_duration() != d.to_duration().ok() {
                return Err(format!("as_std_duration is {:?}, as_duration is {:?}", v.as_std_duration(), v.as_duration()));
              }
              if nanos < 1 << 62 {
                if v.as_std_duration() != Some(Duration::from_nanos(nanos as u64)) {
                  return Err(format!("as_std_duration is {:?}", v.as_std_duration()));
                }
                if v.as_duration().and_then(|d| d.num_nanoseconds()) != Some(nanos as i64) {
                  return Err(format!("as_duration is {:?}", v.as_duration()));
                }
              }
              Ok(h64(&nanos))
            },
          );
        }
      }
    }
  }
  // in arrays, and values made from spans
  for (u, ns) in &units {
    if !ctx.mine() {
      continue;
    }
    for (v, w) in &units {
      let text = format!("a = [3{},4 {} , 5s]", u, v);
      let want = obj(&[("a", V::Arr(vec![V::Dur(3 * ns), V::Dur(4 * w), V::Dur(5_000_000_000)]))]);
      ctx.state(h64(&text));
      ctx.case(|| format!("durations {:?}", text), || expect(&text, &want));
    }
  }
  for n in &ints {
    if !ctx.mine() || ctx.full() {
      continue;
    }
    for (_, unit) in &units {
      let nanos = n * unit;
      let secs = nanos / 1_000_000_000;
      if secs > u64::MAX as u128 {
        continue;
      }
      ctx.steps(1);
      ctx.case(
        || format!("from a span of {} ns", nanos),
        || {
          let std = Duration::new(secs as u64, (nanos % 1_000_000_000) as u32);
          span_check(&ConfigDurationValue::from(std), nanos, true)?;
          if secs < i64::MAX as u128 / 1000 {
            let c = chrono::Duration::seconds(secs as i64) + chrono::Duration::nanoseconds((nanos % 1_000_000_000) as i64);
            span_check(&ConfigDurationValue::from(c), nanos, true)?;
          }
          Ok(h64(&nanos))
        },
      );
    }
  }
}
