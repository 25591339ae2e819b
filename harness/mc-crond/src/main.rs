mod grammar;
mod iter;
mod matching;
mod model;

use mc_core::{main_with, Check};

fn main() {
  main_with(&[
    Check { id: "C01", run: grammar::c01, assumptions: &["field texts beyond the bound behave like the enumerated ones"],
      explain: "state = distinct input text; transition = one character of it consumed by the reference recogniser; trace = one run of CronParser::parse (and CronSchedule::new) compared with the recogniser on acceptance and on every number, range, step and list order",
      bounds_quick: "each field position: every word of <= 4 tokens over a 15-token field alphabet; every 1..3-digit number as value, range end, step and list member; every ordered pair of 30 field shapes in every pair of positions; every single-character edit of 24 valid expressions; every whole text of <= 9 characters over {*, space, 1, /, ','}; lists of up to 300 members with one that does not belong at either end, non-ASCII digits, signs, blanks and stars in every place, blanks and line ends around valid texts",
      bounds_thorough: "field words of <= 5 tokens, whole texts of <= 10 characters, double edits of the valid expressions" },
    Check { id: "C02", run: matching::c02, assumptions: &["chrono's field accessors, cross-checked by an independent civil calendar"],
      explain: "state = (expression, instant); transition = one field decision of the reference; trace = one expression evaluated by the real evaluator on a whole set of instants and compared on each",
      bounds_quick: "each field: star, every value, every range, every step of every starred step and of ranges (minute steps over a boundary set), every pair list over a shape set, against every value of the field; every day of 13 years for the date fields in 4 UTC offsets; every 5-tuple of 6 shapes per field on boundary instants; lists of all values but one, up and down, as values and as ranges; years around 1900, 2000, 2100 and 2400; every day of 17 far years, among them both ends of chrono's calendar",
      bounds_thorough: "all (from, to, step) triples of every field, 40 years, 8 shapes per field" },
    Check { id: "C03", run: iter::c03, assumptions: &["an unbounded search for a schedule without matches ends only at the end of chrono's calendar (the search itself is checked for starts up to 90000 minutes before it)"],
      explain: "state = (schedule, window, position of the iterator); transition = one call of next() or clone(); trace = one whole iteration history compared element by element with a brute-force minute scan",
      bounds_quick: "34 schedules x 40 starts x every end offset 0..=150 minutes (with second and millisecond variants) x 4 UTC offsets to exhaustion; long windows (up to 5 years) for sparse schedules; every history of <= 7 operations {next, clone, next on the clone}; time zones whose offset changes, windows across 2100 for 29 February; 15 starts up to 90000 minutes before the last minute of the calendar, bounded and not; the adaptors of Iterator on 7 windows from every start",
      bounds_thorough: "end offsets up to 1500 minutes, histories of <= 9 operations" },
  ])
}
