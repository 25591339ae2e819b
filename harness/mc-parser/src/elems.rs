//! P03: single-element parsers and element classification against class membership tables that
//! are written over code points.

use mc_core::{h64, Ctx};
use oni_comb_parser_rs::prelude::*;
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

type Class = fn(u32) -> bool;

fn in_str(s: &str, x: u32) -> bool {
  s.chars().any(|c| c as u32 == x)
}
fn space(x: u32) -> bool {
  x == 32 || x == 9
}
fn multi_space(x: u32) -> bool {
  space(x) || x == 10 || x == 13
}
fn upper(x: u32) -> bool {
  (65..91).contains(&x)
}
fn lower(x: u32) -> bool {
  (97..123).contains(&x)
}
fn alpha(x: u32) -> bool {
  upper(x) || lower(x)
}
fn digit(x: u32) -> bool {
  (48..58).contains(&x)
}
fn hex(x: u32) -> bool {
  digit(x) || (65..71).contains(&x) || (97..103).contains(&x)
}
fn in_arr(x: u32) -> bool {
  matches!(x, 97 | 45 | 57 | 200)
}
fn any(_: u32) -> bool {
  true
}

static R_C: Range<char> = 'b'..'e';
static RI_C: RangeInclusive<char> = 'b'..='e';
static RF_C: RangeFrom<char> = 'x'..;
static RT_C: RangeTo<char> = ..'!';
static RTI_C: RangeToInclusive<char> = ..='!';
static R_B: Range<u8> = b'b'..b'e';
static RI_B: RangeInclusive<u8> = b'b'..=b'e';
static RF_B: RangeFrom<u8> = 200..;
static RT_B: RangeTo<u8> = ..33;
static RTI_B: RangeToInclusive<u8> = ..=33;
static FULL: RangeFull = ..;
static ARR_B: [u8; 4] = [b'a', b'-', b'9', 200];
static ARR_C: &[char] = &['q', 'é', '0'];

type Row<'a, I> = (&'static str, Class, Parser<'a, I, I>);

fn common<'a, I: Element>(mk: fn(u8) -> I) -> Vec<Row<'a, I>> {
  let a = mk(b'a');
  let (b, e) = (mk(b'b'), mk(b'e'));
  vec![
    ("elm_any", any, elm_any()),
    ("elm_any_ref", any, elm_any_ref().map(|x| *x)),
    ("elm", |x| x == 97, elm(a)),
    ("elm_ref", |x| x == 97, elm_ref(a).map(|x| *x)),
    ("elm_pred", |x| x < 50, elm_pred(|c: &I| (c.to_char() as u32) < 50)),
    ("elm_pred_ref", |x| x < 50, elm_pred_ref(|c: &I| (c.to_char() as u32) < 50).map(|x| *x)),
    ("elm_in", |x| (98..=101).contains(&x), elm_in(b, e)),
    ("elm_in_ref", |x| (98..=101).contains(&x), elm_in_ref(b, e).map(|x| *x)),
    ("elm_in empty", |_| false, elm_in(e, b)),
    ("elm_in single", |x| x == 98, elm_in(b, b)),
    ("elm_from_until", |x| (98..101).contains(&x), elm_from_until(b, e)),
    ("elm_from_until_ref", |x| (98..101).contains(&x), elm_from_until_ref(b, e).map(|x| *x)),
    ("elm_from_until empty", |_| false, elm_from_until(b, b)),
    ("elm_space", space, elm_space()),
    ("elm_space_ref", space, elm_space_ref().map(|x| *x)),
    ("elm_multi_space", multi_space, elm_multi_space()),
    ("elm_multi_space_ref", multi_space, elm_multi_space_ref().map(|x| *x)),
    ("elm_alpha", alpha, elm_alpha()),
    ("elm_alpha_ref", alpha, elm_alpha_ref().map(|x| *x)),
    ("elm_alpha_digit", |x| alpha(x) || digit(x), elm_alpha_digit()),
    ("elm_alpha_digit_ref", |x| alpha(x) || digit(x), elm_alpha_digit_ref().map(|x| *x)),
    ("elm_digit", digit, elm_digit()),
    ("elm_digit_ref", digit, elm_digit_ref().map(|x| *x)),
    ("elm_digit_1_9", |x| digit(x) && x != 48, elm_digit_1_9()),
    ("elm_digit_1_9_ref", |x| digit(x) && x != 48, elm_digit_1_9_ref().map(|x| *x)),
    ("elm_hex_digit", hex, elm_hex_digit()),
    ("elm_hex_digit_ref", hex, elm_hex_digit_ref().map(|x| *x)),
    // documented as '0'..='8'
    ("elm_oct_digit", |x| (48..=56).contains(&x), elm_oct_digit()),
    ("elm_oct_digit_ref", |x| (48..=56).contains(&x), elm_oct_digit_ref().map(|x| *x)),
    ("elm_of full", any, elm_of::<I, _>(&FULL)),
    ("none_of full", |_| false, none_of::<I, _>(&FULL)),
  ]
}

pub fn char_rows<'a>() -> Vec<Row<'a, char>> {
  let mut v = common(|b| b as char);
  let st = |x: u32| in_str("aé-9", x);
  let ar = |x: u32| in_str("qé0", x);
  v.extend([
    ("elm_of str", st as Class, elm_of::<char, str>("aé-9")),
    ("elm_ref_of str", st, elm_ref_of::<char, str>("aé-9").map(|x| *x)),
    ("elm_of empty str", |_| false, elm_of::<char, str>("")),
    ("none_of str", |x| !in_str("aé-9", x), none_of::<char, str>("aé-9")),
    ("none_ref_of str", |x| !in_str("aé-9", x), none_ref_of::<char, str>("aé-9").map(|x| *x)),
    ("none_of empty str", any, none_of::<char, str>("")),
    ("elm_of slice", ar, elm_of::<char, [char]>(ARR_C)),
    ("none_of slice", |x| !in_str("qé0", x), none_of::<char, [char]>(ARR_C)),
    ("elm_of b..e", |x| (98..101).contains(&x), elm_of::<char, _>(&R_C)),
    ("elm_of b..=e", |x| (98..=101).contains(&x), elm_of::<char, _>(&RI_C)),
    ("elm_of x..", |x| x >= 120, elm_of::<char, _>(&RF_C)),
    ("elm_of ..!", |x| x < 33, elm_of::<char, _>(&RT_C)),
    ("elm_of ..=!", |x| x <= 33, elm_of::<char, _>(&RTI_C)),
    ("none_of b..e", |x| !(98..101).contains(&x), none_of::<char, _>(&R_C)),
    ("none_of b..=e", |x| !(98..=101).contains(&x), none_of::<char, _>(&RI_C)),
    ("elm non-ascii", |x| x == 0xE9, elm('é')),
    ("elm_in non-ascii", |x| (0x3041..=0x3093).contains(&x), elm_in('ぁ', 'ん')),
  ]);
  v
}

fn byte_rows<'a>() -> Vec<Row<'a, u8>> {
  let mut v = common(|b| b);
  v.extend([
    ("elm_of array", (|x| in_arr(x)) as Class, elm_of::<u8, [u8; 4]>(&ARR_B)),
    ("elm_ref_of array", |x| in_arr(x), elm_ref_of::<u8, [u8; 4]>(&ARR_B).map(|x| *x)),
    ("none_of array", |x| !in_arr(x), none_of::<u8, [u8; 4]>(&ARR_B)),
    ("elm_of empty array", |_| false, elm_of::<u8, [u8; 0]>(&[])),
    ("elm_of slice", |x| x == 97 || x == 255, elm_of::<u8, [u8]>(&[b'a', 255])),
    ("none_ref_of slice", |x| !(x == 97 || x == 255), none_ref_of::<u8, [u8]>(&[b'a', 255]).map(|x| *x)),
    ("elm_of b..e", |x| (98..101).contains(&x), elm_of::<u8, _>(&R_B)),
    ("elm_of b..=e", |x| (98..=101).contains(&x), elm_of::<u8, _>(&RI_B)),
    ("elm_of 200..", |x| x >= 200, elm_of::<u8, _>(&RF_B)),
    ("elm_of ..33", |x| x < 33, elm_of::<u8, _>(&RT_B)),
    ("elm_of ..=33", |x| x <= 33, elm_of::<u8, _>(&RTI_B)),
    ("elm high byte", |x| x == 255, elm(255u8)),
    ("elm_in high bytes", |x| x >= 250, elm_in(250u8, 255u8)),
  ]);
  v
}

/// Parsers whose failure points at one element (used by P09).
pub fn char_failers() -> Vec<(&'static str, fn() -> Parser<'static, char, char>)> {
  vec![
    ("elm", || elm('a')),
    ("elm_pred", || elm_pred(|c: &char| *c == 'b')),
    ("elm_of", || elm_of::<char, str>("ab")),
    ("elm_in", || elm_in('b', 'c')),
    ("elm_from_until", || elm_from_until('b', 'd')),
    ("none_of", || none_of::<char, str>("aé")),
    ("elm_digit", || elm_digit()),
    ("elm_space", || elm_space()),
    ("end", || end().map(|_| 'e')),
    ("elm.name", || elm('a').name("x")),
  ]
}

fn run_rows<'a, I: Element + std::hash::Hash>(ctx: &mut Ctx, what: &str, rows: fn() -> Vec<Row<'a, I>>, elems: &'a [I], pads: &'a [[I; 3]]) {
  // pads[k] = [before, x, after] for x = elems[k], prepared by the caller
  let names: Vec<&'static str> = rows().iter().map(|r| r.0).collect();
  for (i, name) in names.iter().enumerate() {
    for (k0, chunk) in (0..).step_by(64).zip(elems.chunks(64)) {
      if ctx.full() {
        return;
      }
      if !ctx.mine() {
        continue;
      }
      for x in chunk {
        ctx.state(h64(&(what, name, x)));
      }
      ctx.steps(chunk.len() as u64 * 2);
      ctx.case(
        || format!("{} {} on elements {:?}..={:?}", what, name, chunk[0], chunk[chunk.len() - 1]),
        || {
          let (_, class, p) = rows().swap_remove(i);
          let mut fp = 0u64;
          for (j, x) in chunk.iter().enumerate() {
            let want = class(x.to_char() as u32);
            let pad: &'a [I] = &pads[k0 + j];
            let one: &'a [I] = std::slice::from_ref(&elems[k0 + j]);
            for (input, off) in [(one, 0usize), (pad, 1)] {
              match p.run(&ParseState::new(input, off)) {
                ParseResult::Success { value, length } => {
                  if !want {
                    return Err(format!("accepted {:?}, which is outside its class", x));
                  }
                  if value != *x || length != 1 {
                    return Err(format!("on {:?} returned {:?} consuming {}", x, value, length));
                  }
                }
                ParseResult::Failure { committed_status, .. } => {
                  if want {
                    return Err(format!("rejected {:?}, which is in its class", x));
                  }
                  if committed_status.is_committed() {
                    return Err(format!("failed committed on {:?}", x));
                  }
                }
              }
            }
            fp = h64(&(fp, want));
          }
          Ok(fp)
        },
      );
    }
    ctx.case(
      || format!("{} {} at end of input", what, name),
      || {
        let (_, _, p) = rows().swap_remove(i);
        for (input, off) in [(&elems[..0], 0usize), (&elems[..1], 1), (&elems[..2], 2)] {
          match p.run(&ParseState::new(input, off)) {
            ParseResult::Success { .. } => return Err("succeeded at end of input".into()),
            ParseResult::Failure { committed_status, .. } if committed_status.is_committed() => {
              return Err("failed committed at end of input".into())
            }
            _ => {}
          }
        }
        Ok(7)
      },
    );
  }
}

/// The classification predicates of one element, in a fixed order.
fn preds<I: Element>(x: &I) -> [bool; 17] {
  [
    x.is_ascii_space(), x.is_ascii_multi_space(), x.is_ascii_whitespace(), Element::is_ascii(x), x.is_ascii_alpha_uppercase(),
    x.is_ascii_alpha_lowercase(), x.is_ascii_alpha(), Element::is_ascii_digit(x), x.is_ascii_digit_zero(), x.is_ascii_digit_non_zero(),
    x.is_ascii_alpha_digit(), x.is_ascii_hex_digit(), x.is_ascii_oct_digit(), Element::is_ascii_punctuation(x), Element::is_ascii_graphic(x),
    Element::is_ascii_control(x), x.to_char() as u32 == 0,
  ]
}
const PRED_NAMES: [&str; 17] = [
  "space", "multi_space", "whitespace", "ascii", "uppercase", "lowercase", "alpha", "digit", "digit_zero", "digit_non_zero", "alpha_digit",
  "hex_digit", "oct_digit", "punctuation", "graphic", "control", "to_char",
];
fn want_preds(x: u32) -> [bool; 17] {
  let graphic = (33..127).contains(&x);
  [
    space(x), multi_space(x), multi_space(x) || x == 12, x < 128, upper(x), lower(x), alpha(x), digit(x), x == 48, digit(x) && x != 48,
    alpha(x) || digit(x), hex(x), (48..=56).contains(&x), graphic && !alpha(x) && !digit(x), graphic, x < 32 || x == 127, x == 0,
  ]
}

fn check_preds<I: Element>(ctx: &mut Ctx, what: &str, elems: &[I]) {
  for chunk in elems.chunks(128) {
    if !ctx.mine() {
      continue;
    }
    ctx.case(
      || format!("{} classification of {:?}..={:?}", what, chunk[0], chunk[chunk.len() - 1]),
      || {
        let mut fp = 0;
        for x in chunk {
          let got = preds(x);
          let want = want_preds(x.to_char() as u32);
          for i in 0..17 {
            if got[i] != want[i] {
              return Err(format!("{:?}: {} is {}", x, PRED_NAMES[i], got[i]));
            }
          }
          fp = h64(&(fp, got));
        }
        Ok(fp)
      },
    );
  }
}

/// Accepts exactly the members among `elems`, alone, between others and far into the input.
fn members<I: Element + std::hash::Hash>(ctx: &mut Ctx, what: &dyn Fn() -> String, p: &dyn Fn() -> Parser<'static, I, I>, elems: &'static [I], class: &dyn Fn(&I) -> bool) {
  ctx.state(h64(&what()));
  ctx.steps(elems.len() as u64);
  ctx.case(what, || {
    let p = p();
    let mut n = 0u64;
    for (i, x) in elems.iter().enumerate() {
      let want = class(x);
      for (input, off) in [(std::slice::from_ref(x), 0), (elems, i)] {
        match p.run(&ParseState::new(input, off)) {
          ParseResult::Success { value, length: 1 } if want && value == *x => n += 1,
          ParseResult::Failure { committed_status, .. } if !want && committed_status.is_uncommitted() => {}
          r => return Err(format!("on {:?} at offset {}: {:?}", x, off, r)),
        }
      }
    }
    Ok(n)
  });
}

/// Sets of every size (in arrays, slices and texts), and every range between two of 26 bounds.
fn sets(ctx: &mut Ctx, bytes: &'static [u8], chars: &'static [char]) {
  macro_rules! arrays {
    ($($n:literal)*) => { $(
      if ctx.mine() && !ctx.full() {
        for k in [0usize, 101] {
          let set: &'static [u8; $n] = Box::leak(Box::new(std::array::from_fn(|i| ((i + k) * 37 % 256) as u8)));
          members(ctx, &|| format!("elm_of array of {} from {}", $n, k), &|| elm_of::<u8, [u8; $n]>(set), bytes, &|x| set.iter().any(|y| x == y));
          members(ctx, &|| format!("elm_ref_of array of {} from {}", $n, k), &|| elm_ref_of::<u8, [u8; $n]>(set).map(|x| *x), bytes, &|x| set.iter().any(|y| x == y));
          members(ctx, &|| format!("none_of array of {} from {}", $n, k), &|| none_of::<u8, [u8; $n]>(set), bytes, &|x| set.iter().all(|y| x != y));
          members(ctx, &|| format!("none_ref_of array of {} from {}", $n, k), &|| none_ref_of::<u8, [u8; $n]>(set).map(|x| *x), bytes, &|x| set.iter().all(|y| x != y));
        }
      }
    )* };
  }
  arrays!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64);
  for n in (0..70).chain([100, 127, 128, 129, 200, 254, 255, 256]) {
    if ctx.full() || !ctx.mine() {
      continue;
    }
    let set: &'static [u8] = Box::leak((0..n).map(|i| (i * 37 % 256) as u8).collect());
    let txt: &'static [char] = Box::leak((0..n).map(|i| chars[i * 37 % chars.len()]).collect());
    let text: &'static str = Box::leak(txt.iter().collect::<String>().into_boxed_str());
    members(ctx, &|| format!("elm_of slice of {}", n), &|| elm_of::<u8, [u8]>(set), bytes, &|x| set.iter().any(|y| x == y));
    members(ctx, &|| format!("none_of slice of {}", n), &|| none_of::<u8, [u8]>(set), bytes, &|x| set.iter().all(|y| x != y));
    members(ctx, &|| format!("elm_of characters, slice of {}", n), &|| elm_of::<char, [char]>(txt), chars, &|x| txt.iter().any(|y| x == y));
    members(ctx, &|| format!("elm_of text of {}", n), &|| elm_of::<char, str>(text), chars, &|x| txt.iter().any(|y| x == y));
    members(ctx, &|| format!("elm_ref_of text of {}", n), &|| elm_ref_of::<char, str>(text).map(|x| *x), chars, &|x| txt.iter().any(|y| x == y));
    members(ctx, &|| format!("none_of text of {}", n), &|| none_of::<char, str>(text), chars, &|x| txt.iter().all(|y| x != y));
    members(ctx, &|| format!("none_ref_of text of {}", n), &|| none_ref_of::<char, str>(text).map(|x| *x), chars, &|x| txt.iter().all(|y| x != y));
  }
  // every single member: each byte, each character of a text below U+0180
  for c in 0u32..0x180 {
    if ctx.full() || !ctx.mine() {
      continue;
    }
    if let Ok(b) = u8::try_from(c) {
      let set: &'static [u8; 1] = Box::leak(Box::new([b]));
      members(ctx, &|| format!("elm_of only {}", b), &|| elm_of::<u8, [u8; 1]>(set), bytes, &|x| *x == b);
      members(ctx, &|| format!("none_of only {}", b), &|| none_of::<u8, [u8; 1]>(set), bytes, &|x| *x != b);
      members(ctx, &|| format!("elm of {}", b), &|| elm(b), bytes, &|x| *x == b);
    }
    let ch = char::from_u32(c).unwrap();
    let text: &'static str = Box::leak(ch.to_string().into_boxed_str());
    members(ctx, &|| format!("elm_of text {:?}", text), &|| elm_of::<char, str>(text), chars, &|x| *x == ch);
    members(ctx, &|| format!("none_of text {:?}", text), &|| none_of::<char, str>(text), chars, &|x| *x != ch);
    members(ctx, &|| format!("elm of {:?}", ch), &|| elm(ch), chars, &|x| *x == ch);
    members(ctx, &|| format!("elm_in {:?} alone", ch), &|| elm_in(ch, ch), chars, &|x| *x == ch);
  }
  let ends: [u8; 26] = [0, 1, 9, 31, 32, 47, 48, 57, 58, 64, 65, 90, 91, 97, 122, 123, 126, 127, 128, 129, 191, 192, 223, 224, 254, 255];
  for lo in ends {
    for hi in ends {
      if ctx.full() || !ctx.mine() {
        continue;
      }
      let n = |k: &str| format!("{} {} {}", k, lo, hi);
      let closed = |x: &u8| lo <= *x && *x <= hi;
      let open = |x: &u8| lo <= *x && *x < hi;
      members(ctx, &|| n("elm_in"), &|| elm_in(lo, hi), bytes, &closed);
      members(ctx, &|| n("elm_in_ref"), &|| elm_in_ref(lo, hi).map(|x| *x), bytes, &closed);
      members(ctx, &|| n("elm_from_until"), &|| elm_from_until(lo, hi), bytes, &open);
      members(ctx, &|| n("elm_from_until_ref"), &|| elm_from_until_ref(lo, hi).map(|x| *x), bytes, &open);
      let (r, ri): (&'static Range<u8>, &'static RangeInclusive<u8>) = (Box::leak(Box::new(lo..hi)), Box::leak(Box::new(lo..=hi)));
      members(ctx, &|| n("elm_of .."), &|| elm_of::<u8, _>(r), bytes, &open);
      members(ctx, &|| n("elm_of ..="), &|| elm_of::<u8, _>(ri), bytes, &closed);
      members(ctx, &|| n("none_of .."), &|| none_of::<u8, _>(r), bytes, &|x| !open(x));
      members(ctx, &|| n("none_of ..="), &|| none_of::<u8, _>(ri), bytes, &|x| !closed(x));
      let (a, b) = (char::from(lo), char::from(hi));
      members(ctx, &|| n("elm_in, characters"), &|| elm_in(a, b), chars, &|x| a <= *x && *x <= b);
      members(ctx, &|| n("elm_from_until, characters"), &|| elm_from_until(a, b), chars, &|x| a <= *x && *x < b);
    }
    if ctx.full() || !ctx.mine() {
      continue;
    }
    let (f, t, ti): (&'static RangeFrom<u8>, &'static RangeTo<u8>, &'static RangeToInclusive<u8>) = (Box::leak(Box::new(lo..)), Box::leak(Box::new(..lo)), Box::leak(Box::new(..=lo)));
    members(ctx, &|| format!("elm_of {}..", lo), &|| elm_of::<u8, _>(f), bytes, &|x| *x >= lo);
    members(ctx, &|| format!("elm_of ..{}", lo), &|| elm_of::<u8, _>(t), bytes, &|x| *x < lo);
    members(ctx, &|| format!("elm_of ..={}", lo), &|| elm_of::<u8, _>(ti), bytes, &|x| *x <= lo);
    members(ctx, &|| format!("elm {}", lo), &|| elm(lo), bytes, &|x| *x == lo);
    members(ctx, &|| format!("elm_ref {}", lo), &|| elm_ref(lo).map(|x| *x), bytes, &|x| *x == lo);
  }
}

pub fn p03(ctx: &mut Ctx) {
  let bytes: Vec<u8> = (0..=255).collect();
  let top: u32 = if ctx.thorough() { 0x110000 } else { 0x20000 };
  let mut chars: Vec<char> = (0..top).filter_map(char::from_u32).collect();
  if !ctx.thorough() {
    for c in [0xD7FF, 0xE000, 0xFE0F, 0xFEFF, 0xFF10, 0xFF19, 0xFF21, 0xFF41, 0xFFFD, 0xFFFF, 0x10000, 0x1D7CE, 0x1D7D8, 0x1F600, 0x10FFFF] {
      chars.extend(char::from_u32(c));
    }
  }
  let bp: Vec<[u8; 3]> = bytes.iter().map(|b| [b.wrapping_add(1), *b, b.wrapping_sub(1)]).collect();
  let cp: Vec<[char; 3]> = chars.iter().map(|c| [if *c == 'a' { 'z' } else { 'a' }, *c, if *c == '0' { ' ' } else { '0' }]).collect();
  // parsers may borrow these for as long as the process lives
  let bytes: &'static [u8] = Box::leak(bytes.into_boxed_slice());
  let chars: &'static [char] = Box::leak(chars.into_boxed_slice());
  let bp: &'static [[u8; 3]] = Box::leak(bp.into_boxed_slice());
  let cp: &'static [[char; 3]] = Box::leak(cp.into_boxed_slice());
  run_rows(ctx, "byte", byte_rows, bytes, bp);
  run_rows(ctx, "char", char_rows, chars, cp);
  let some: &'static [char] = Box::leak((0..0x180).chain(0x3000..0x3020).chain([0xFFFD, 0x1F600, 0x10FFFF]).filter_map(char::from_u32).collect());
  sets(ctx, bytes, some);
  check_preds(ctx, "byte", bytes);
  check_preds(ctx, "char", chars);
  // to_char itself, and end of input
  for chunk in bytes.chunks(16) {
    ctx.case(
      || format!("byte to_char of {:?}", chunk),
      || match chunk.iter().find(|b| b.to_char() as u32 != **b as u32) {
        Some(b) => Err(format!("{} becomes {:?}", b, b.to_char())),
        None => Ok(3),
      },
    );
  }
  for (n, off) in [(0usize, 0usize), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (3, 2), (3, 3)] {
    ctx.case(
      || format!("end at offset {} of {} elements", off, n),
      || {
        let at_end = off == n;
        for r in [end::<char>().run(&ParseState::new(&chars[..n], off))] {
          match r {
            ParseResult::Success { length: 0, .. } if at_end => {}
            ParseResult::Failure { committed_status, .. } if !at_end && committed_status.is_uncommitted() => {}
            x => return Err(format!("unexpected {:?}", x)),
          }
        }
        for p in [empty::<char>(), unit()] {
          match p.run(&ParseState::new(&chars[..n], off)) {
            ParseResult::Success { length: 0, .. } => {}
            x => return Err(format!("empty/unit gave {:?}", x)),
          }
        }
        Ok(at_end as u64)
      },
    );
  }
}
