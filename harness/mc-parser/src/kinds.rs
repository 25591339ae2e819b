//! P08: one parser of every kind, run again and again on the same instance.
use mc_core::{h64, words, Ctx};
use oni_comb_parser_rs::prelude::*;
use std::fmt::Debug;

type P<I> = Parser<'static, I, String>;
type Kind<I> = (&'static str, Box<dyn Fn() -> P<I>>);

fn text<I: 'static, A: Debug + 'static>(p: Parser<'static, I, A>) -> P<I> {
    p.map(|v| format!("{:?}", v))
}

macro_rules! kinds {
  ($($name:expr => $e:expr),* $(,)?) => { vec![$(($name, Box::new(|| text($e)) as Box<dyn Fn() -> P<_>>)),*] };
}

fn op<'a>() -> Parser<'a, char, fn(String, String) -> String> {
    elm_of::<char, str>("b1").map(|c| {
        if c == 'b' {
            (|x, y| format!("({}b{})", x, y)) as fn(String, String) -> String
        } else {
            |x, y| format!("({}1{})", x, y)
        }
    })
}

fn operand<'a>() -> Parser<'a, char, String> {
    elm_of::<char, str>("aA").map(|c| c.to_string())
}

fn nested<'a>() -> Parser<'a, char, String> {
    (elm('a') * lazy(nested) - elm('b').opt())
        .map(|s| format!("<{}>", s))
        .attempt()
        | elm_any().map(|c: char| c.to_string())
}

fn of_chars() -> Vec<Kind<char>> {
    let mut all: Vec<Kind<char>> = kinds![
      "elm_any" => elm_any(),
      "elm" => elm('a'),
      "elm_pred" => elm_pred(|c: &char| *c < 'b'),
      "elm_of" => elm_of::<char, str>("a1"),
      "none_of" => none_of::<char, str>("a1"),
      "elm_in" => elm_in('A', 'a'),
      "elm_from_until" => elm_from_until('A', 'b'),
      "elm_space" => elm_space::<char>(),
      "elm_multi_space" => elm_multi_space::<char>(),
      "elm_alpha" => elm_alpha::<char>(),
      "elm_alpha_digit" => elm_alpha_digit::<char>(),
      "elm_digit" => elm_digit::<char>(),
      "elm_digit_1_9" => elm_digit_1_9::<char>(),
      "elm_hex_digit" => elm_hex_digit::<char>(),
      "elm_oct_digit" => elm_oct_digit::<char>(),
      "begin and end" => end::<char>(),
      "tag" => tag("ab"),
      "tag_no_case" => tag_no_case("aB"),
      "seq" => seq(&['a', 'b']),
      "regex" => regex("[ab]+"),
      "regex, anchored" => regex("^a(b|1)?"),
      "regex, end" => regex("a*$"),
      "regex, word" => regex(r"\b\w"),
      "regex, empty" => regex("1*"),
      "take" => take(2),
      "skip" => skip(2),
      "take_while0" => take_while0(|c: &char| *c != 'b'),
      "take_while1" => take_while1(|c: &char| *c != 'b'),
      "take_while_n_m" => take_while_n_m(1, 2, |c: &char| *c != 'b'),
      "take_till0" => take_till0(|c: &char| *c == 'b'),
      "take_till1" => take_till1(|c: &char| *c == 'b'),
      "successful_lazy" => successful_lazy(|| 5),
      "many0" => elm('a').of_many0(),
      "many1" => elm('a').of_many1(),
      "n_m" => elm_any::<char>().of_many_n_m(1, 2),
      "count" => elm_of::<char, str>("ab").of_count(2),
      "many0_sep" => elm('a').of_many0_sep(elm('b')),
      "many1_sep" => elm_any::<char>().of_many1_sep(elm('b')),
      "repeat" => tag("a").attempt().repeat(..2),
      "chain_left1" => operand().chain_left1(op()),
      "chain_right1" => operand().chain_right1(op()),
      "chain_left0" => operand().chain_left0(op(), "none".to_string()),
      "chain_right0" => operand().chain_right0(op(), "none".to_string()),
      "nested" => nested(),
      "nested, cached" => lazy(nested).cache(),
      "offsets" => elm_any::<char>().of_many0().next_offset() + elm_any::<char>().opt().last_offset(),
      "peek" => tag("ab").peek() + elm_any(),
      "exists" => tag("ab").exists() + elm_any().opt(),
      "not" => OperatorParser::not(tag("ab")) + elm_any().opt(),
      "collect" => elm('a').of_many0().collect(),
      "surround" => elm('a').of_many0().surround(elm('b'), elm('1')),
      "filter" => elm_any::<char>().of_many0().with_filter(|v: &Vec<char>| v.len() != 2),
      "filter not" => elm_any::<char>().of_many0().with_filter_not(|v: &Vec<char>| v.len() != 2),
      "map_res" => elm_any::<char>().map_res(|c| c.to_digit(16).ok_or("no digit")),
      "flat_map" => elm_any::<char>().flat_map(|c| elm(c).of_many1()),
      "or" => tag("ab") | tag("aA").attempt() | regex("a."),
      "name" => tag("ab").name("n"),
      "debug" => tag("ab").debug("n"),
      "discard" => tag("ab").discard(),
    ];
    // the same behind a cache and behind something that consumes
    let plain = of_names(&all);
    for (name, k) in plain {
        all.push((
            Box::leak(format!("{}, cached", name).into_boxed_str()),
            Box::new(move || CHARS.with(|c| (c[k].1)()).cache()),
        ));
        all.push((
            Box::leak(format!("{}, behind any", name).into_boxed_str()),
            Box::new(move || elm_any::<char>() * CHARS.with(|c| (c[k].1)())),
        ));
    }
    all
}

fn of_names(all: &[Kind<char>]) -> Vec<(&'static str, usize)> {
    all.iter().enumerate().map(|(k, (n, _))| (*n, k)).collect()
}

thread_local! {
  static CHARS: Vec<Kind<char>> = of_chars();
}

fn of_bytes() -> Vec<Kind<u8>> {
    kinds![
      "elm" => elm(b'a'),
      "elm_of" => elm_of::<u8, [u8; 2]>(b"a1"),
      "none_of" => none_of::<u8, [u8; 2]>(b"a1"),
      "elm_ref_of" => elm_ref_of::<u8, [u8; 2]>(b"a1").collect(),
      "elm_alpha" => elm_alpha::<u8>(),
      "elm_digit_ref" => elm_digit_ref::<u8>(),
      "elm_space" => elm_space::<u8>(),
      "seq" => seq(b"ab"),
      "take" => take::<u8>(2),
      "take_while1" => take_while1(|c: &u8| *c != b'b'),
      "take_till0" => take_till0(|c: &u8| *c == b'b'),
      "many0" => elm_any::<u8>().of_many0().collect(),
      "text" => elm_any::<u8>().of_many1().map_res(String::from_utf8),
      "or" => seq(b"ab").attempt() | seq(b"aA"),
    ]
}

type Seen<I> = Result<(String, usize), (ParseError<'static, I>, bool)>;

fn see<I: Clone>(p: &P<I>, w: &'static [I], off: usize) -> Seen<I> {
    match p.run(&ParseState::new(w, off)) {
        ParseResult::Success { value, length } => Ok((value, length)),
        ParseResult::Failure {
            error,
            committed_status,
        } => Err((error, committed_status.is_committed())),
    }
}

fn histories<I: Clone + Debug + PartialEq + 'static>(
    ctx: &mut Ctx,
    what: &str,
    name: &str,
    make: &dyn Fn() -> P<I>,
    inputs: &[&'static [I]],
) {
    let points: Vec<(&'static [I], usize)> = inputs
        .iter()
        .flat_map(|w| (0..=w.len()).map(move |off| (*w, off)))
        .collect();
    for (a, (w, off)) in points.iter().enumerate() {
        if ctx.full() || !ctx.mine() {
            continue;
        }
        ctx.state(h64(&("kinds", what, name, a)));
        ctx.steps(4 * points.len() as u64);
        ctx.case(
            || {
                format!(
                    "{} of {}: histories starting on {:?}/{}",
                    name, what, w, off
                )
            },
            || {
                let p = make();
                let q = p.clone();
                let want = see(&make(), w, *off);
                let mut fp = 0;
                for (w2, off2) in &points {
                    let got = see(&p, w, *off);
                    if got != want {
                        return Err(format!("expected {:?}, got {:?}", want, got));
                    }
                    let (x, y) = (see(&q, w2, *off2), see(&p, w2, *off2));
                    if x != y {
                        return Err(format!(
                            "then on {:?}/{}: {:?}, a clone {:?}",
                            w2, off2, y, x
                        ));
                    }
                    let fresh = see(&make(), w2, *off2);
                    if fresh != y {
                        return Err(format!(
                            "then on {:?}/{}: {:?}, a new parser {:?}",
                            w2, off2, y, fresh
                        ));
                    }
                    fp = h64(&(fp, format!("{:?}", y)));
                }
                Ok(fp)
            },
        );
    }
}

pub fn p08(ctx: &mut Ctx) {
    let letters = ['a', 'b', '1', 'A', ' '];
    let inputs: Vec<&'static [char]> = words(&letters, ctx.pick(2, 3))
        .into_iter()
        .chain(words(&letters[..2], 3))
        .map(|w| &*Box::leak(w.into_boxed_slice()))
        .collect();
    CHARS.with(|all| {
        for (name, make) in all {
            histories(ctx, "characters", name, make, &inputs);
        }
    });
    let bytes: Vec<&'static [u8]> = words(&[b'a', b'b', b'1', b'A', 0xc3], ctx.pick(2, 3))
        .into_iter()
        .map(|w| &*Box::leak(w.into_boxed_slice()))
        .collect();
    for (name, make) in &of_bytes() {
        histories(ctx, "bytes", name, make, &bytes);
    }
}
