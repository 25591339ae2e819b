mod elems;
mod kinds;
mod laws;
mod lits;
mod long;
mod p_cache;
mod term;
mod terms;

use mc_core::{main_with, Check};

fn main() {
  let a_term = &["the reference interpreter in mc-parser/src/term.rs states the intended semantics",
    "inputs longer than the bound, larger alphabets and deeper terms behave like the enumerated ones"];
  main_with(&[
    Check { id: "P01", run: terms::p01, assumptions: a_term,
      explain: "state = (sub-term, input word, offset) configuration visited by the reference interpreter for a distinct (term, word); transition = one reference evaluation step; trace = one run of the real parser built from the term, compared on value, consumed length and commitment",
      bounds_quick: "choice-family terms of <= 5 nodes over 9 leaves; words over {a,b} of length <= 4; every offset; choices of up to 300 branches, inputs of up to 300 and around every power of two to 65537 characters, long and short failures of them; the error of every failing choice and attempt against that of its deciding part (words of length <= 3)",
      bounds_thorough: "choice-family terms of <= 6 nodes over 9 leaves; words over {a,b} of length <= 4; every offset" },
    Check { id: "P02", run: terms::p02, assumptions: a_term,
      explain: "as P01 with the sequencing family (pair, skip-left/right, surround, bind, collect, discard, offsets, map)",
      bounds_quick: "sequencing terms of <= 5 nodes over 7 leaves; words over {a,b} of length <= 4; every offset; sequences of up to 300 parts, surrounds and binds nested that deep, offsets to 65537",
      bounds_thorough: "sequencing terms of <= 6 nodes over 7 leaves; words over {a,b} of length <= 4; every offset" },
    Check { id: "P03", run: elems::p03, assumptions: &["characters outside the enumerated ranges are classified like the sampled representatives"],
      explain: "state = (parser, element) pair; transition = one oracle membership decision; trace = one run of the real element parser at one offset",
      bounds_quick: "all 256 bytes and all characters below U+20000, about 48 element parsers in by-value and by-reference form, 3 offsets, plus end of input; arrays, slices and texts of 0..256 members as sets; every range between two of 26 bounds",
      bounds_thorough: "all 256 bytes and all Unicode scalar values, same parsers" },
    Check { id: "P04", run: lits::p04, assumptions: &["regex semantics are taken from a hand-written matcher for the enumerated pattern family"],
      explain: "state = (literal/pattern/predicate parser, input word, offset); transition = one oracle comparison step; trace = one run of the real parser, alone and followed by a position probe",
      bounds_quick: "words over {a,b,B,e-acute,1} of length <= 5 (literals and case-insensitive literals <= 4, regexes <= 3), every offset; literals, runs and patterns of up to 300 (in part 65537) characters from every boundary offset, case folding of every character that has one",
      bounds_thorough: "words over the same alphabet of length <= 7 (literals <= 6, regexes <= 5), every offset" },
    Check { id: "P05", run: terms::p05, assumptions: a_term,
      explain: "as P01 with every repetition form, range kind and bound 0..4 over a set of item and separator parsers, embedded in sequencing contexts",
      bounds_quick: "every item x separator x range kind (bounds 0..4) x context, words over {a,b,c} of length <= 5, every offset; 0..300 (in part 65537) items with and without separators, bounds around every size, items and separators of several elements",
      bounds_thorough: "same terms, words over {a,b,c} of length <= 7 (in contexts <= 6)" },
    Check { id: "P06", run: terms::p06, assumptions: a_term,
      explain: "as P01 with every operator-chain form over a set of operand and operator parsers",
      bounds_quick: "every chain form x operand x operator x context, words over {x,y,+,-} of length <= 7; chains of up to 300 (one family 1025) operands, dangling operators after them",
      bounds_thorough: "same terms, words of length <= 9" },
    Check { id: "P07", run: p_cache::p07, assumptions: a_term,
      explain: "state = (history of (input, offset) runs, cached term); transition = one run against the shared cached instance; trace = one whole history compared run by run with the reference",
      bounds_quick: "histories of length <= 4 over every (input, offset) of the input buffers x cached grammars, states at reused and fresh addresses; plus all choice/sequence terms of <= 5 nodes with caches inserted; one instance over every position of inputs of up to 300 characters in several orders, over far positions to 65537, and over slices of one buffer; errors compared with those of the uncached term",
      bounds_thorough: "histories of length <= 5; terms of <= 6 nodes" },
    Check { id: "P08", run: terms::p08, assumptions: a_term,
      explain: "state = (pair of terms, history of runs on clones); transition = one run; trace = one history, each run compared with the reference and with earlier identical runs; probes count evaluations of undecided branches",
      bounds_quick: "pairs of terms of <= 4 nodes, histories of 3 runs over clones, words of length <= 3, also behind prefixes of 14 lengths up to 300; errors of repeated, cloned and lazily built runs; inputs and clones at sizes up to 300; 122 parsers of every kind, histories of runs over all (word, offset) of words of length <= 2",
      bounds_thorough: "terms of <= 5 nodes, same histories" },
    Check { id: "P09", run: terms::p09, assumptions: a_term,
      explain: "state = failing (term, word, offset); transition = one inspection call; trace = one failing run whose error is displayed and queried",
      bounds_quick: "mixed terms of <= 4 nodes, words over {a,b,e-acute}, every offset; bytes likewise; failures at offsets up to 65537; errors made by the caller, of every kind with every reach around every kind (2 levels)",
      bounds_thorough: "mixed terms of <= 5 nodes; made errors 4 levels deep" },
    Check { id: "P10", run: laws::p10, assumptions: a_term,
      explain: "state = (law, parser terms, closures, word, offset); transition = one side evaluated; trace = one law instance where both sides ran on the real code (and against the reference)",
      bounds_quick: "12 laws over terms of <= 4 nodes, words over {a,b} of length <= 4, every offset; 9 conversions of every failing run keep its error; 8 families of terms and inputs at sizes up to 257",
      bounds_thorough: "terms of <= 5 nodes, words of length <= 4" },
    Check { id: "P11", run: laws::p11, assumptions: a_term,
      explain: "state = (alias or decoration, term, word, offset); transition = one side evaluated; trace = one alias instance compared with the form it stands for",
      bounds_quick: "every alias over pairs of terms of <= 3 nodes, every decoration of every term of <= 4 nodes, words over {a,b} of length <= 3; 8 families of terms and inputs at sizes up to 257",
      bounds_thorough: "decorations of terms of <= 5 nodes, words of length <= 5" },
  ])
}
