mod docs;
mod large;
mod scalars;
mod text;
mod view;

use mc_core::{main_with, Check};

fn main() {
  let a = &["documents beyond the bound behave like the enumerated ones"];
  main_with(&[
    Check { id: "H01", run: scalars::h01, assumptions: a,
      explain: "state = distinct written scalar; transition = one character of it; trace = one load of a document holding it, read through the accessors",
      bounds_quick: "every word of <= 5 characters over {0,1,9,.,-,e,E,+} in 3 surroundings, 2 x 8 x 9 x 22 longer numbers; every limit of every integer type in 5 spellings; every string of <= 2 characters over 29 and of <= 4 over 7 in 6 spellings; every unquoted word of <= 4 over 14; quoted keys of <= 3 characters; strings, escapes, names and digit rows of up to 4097 characters; every quoted key with a dot",
      bounds_thorough: "number words <= 6, strings <= 3 over 29 and <= 5 over 7, unquoted words <= 5" },
    Check { id: "H02", run: docs::h02, assumptions: a,
      explain: "state = distinct document; transition = one definition; trace = one load whose whole value and every path up to 3 elements is compared",
      bounds_quick: "every document of <= 2 definitions out of 5 paths x 10 shapes in 4 notations, of 3 definitions out of 4 paths x 6 shapes in 2, and of 4..5 out of 5 definitions; objects, nestings, repetitions and merges of up to 200 members or levels; keys with a dot within quotes",
      bounds_thorough: "4 definitions out of 24, 3 out of 50, 6 out of 5" },
    Check { id: "H03", run: docs::h03, assumptions: a,
      explain: "state = (document, environment); transition = one definition; trace = one load compared with the reference meaning; mutual cycles and overridden broken references are only required not to crash",
      bounds_quick: "every document of <= 3 definitions out of 57 and of 4 out of 21, with and without the environment variable; every chain of 5 references in every order, with every choice of optional links and 6 ends; documents of >= 3 definitions that do not ask for the variable run without it only; chains, self references, optional and environment references of up to 65 definitions; <= 3 of 9 definitions that go through the variable's name",
      bounds_thorough: "5 definitions out of 21 with the variable set, chains of 6" },
    Check { id: "H04", run: scalars::h04, assumptions: a,
      explain: "state = distinct written duration; transition = number and unit; trace = one load converted to both span types",
      bounds_quick: "27 unit spellings x 160 integers up to 10^24 x 5 gaps x 4 surroundings, decimal fractions and exponents below 1000, large integers with up to many digits behind the point, pairs of units in arrays, spans converted to values and back",
      bounds_thorough: "every integer below 2000 as well" },
    Check { id: "H05", run: text::h05, assumptions: &["nesting up to 64 levels; deeper nesting is limited by the stack"],
      explain: "state = distinct text; transition = one token; trace = one load whose result is displayed and read",
      bounds_quick: "every word of <= 3 of 30 tokens, of <= 5 of 10, of <= 2 of 30 in 10 surroundings; every truncation, deletion of up to 6 characters, insertion and replacement in 13 documents x 4 notations; 2 x 14^3 reference cycles; 8 kinds of unreadable files, every truncation of every document as a file",
      bounds_thorough: "words <= 4 and <= 6, <= 3 in surroundings, double replacements" },
    Check { id: "H06", run: text::h06, assumptions: a,
      explain: "state = distinct text; transition = one gap; trace = one load compared with the meaning of the document",
      bounds_quick: "13 documents with and without root braces, every pair of gaps each with every layout (8 to 13 per kind of gap), every layout everywhere at once; gaps, comments, objects and arrays of up to 1000 elements; ends of lines \\r, \\n, \\r\\n",
      bounds_thorough: "every triple of gaps in documents of at most 8 gaps" },
    Check { id: "H07", run: text::h07, assumptions: a,
      explain: "state = distinct text; transition = print or load; trace = load, print, load",
      bounds_quick: "550 scalars in 6 shapes, 8 leaves in every nesting of 6 shapes up to depth 3, every string of <= 4 letters over 12, every loadable word of <= 3 over 15; objects, arrays, nestings, strings and keys of up to 1025 elements",
      bounds_thorough: "depth 5, strings <= 5, words <= 4" },
    Check { id: "H08", run: text::h08, assumptions: a,
      explain: "state = (files, including text); transition = one file; trace = one load through 1..3 levels of files",
      bounds_quick: "every ordered pair of 13 documents x 4 notations x 61 including texts, each also one file further away; every include graph over 3 files; rows and chains of up to 65 included files; references from file to file",
      bounds_thorough: "every include graph over 4 files" },
  ])
}
