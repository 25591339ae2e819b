mod eval;
mod lang;
mod large;
mod run;
mod syntax;

use mc_core::{main_with, Check};

fn main() {
  let a = &["programs beyond the bound behave like the enumerated ones"];
  main_with(&[
    Check { id: "T01", run: syntax::t01, assumptions: a,
      explain: "state = distinct source text; transition = one token; trace = one parse whose tree is compared with the grouping rule",
      bounds_quick: "every sequence of <= 2 of the 13 operators over 5 kinds of operands in 4 spacings with every placement of a group; every sequence of 3 and 4 over one operator of each level (every group for 3); every nesting of 6 wrappings up to depth 3; rows of up to 300 operands, nesting to 33",
      bounds_thorough: "sequences of 3 with groups, of 5 over one of each level, nesting depth 4" },
    Check { id: "T02", run: eval::t02, assumptions: a,
      explain: "state = distinct program with a defined meaning; transition = one run or printed line; trace = one run compared in output and value with a reference machine",
      bounds_quick: "13 operators on every pair of 13 edge values; one more operator on either side over 5 values; every sequence of <= 3 of 24 statements over two variables, three ways; every pair of them inside 5 control structures; every counting loop with bounds -3..6; sums, blocks and loops of up to 600 steps (counting loops more), control structures nested to 12",
      bounds_thorough: "two more operators, sequences of 4, triples inside control structures" },
    Check { id: "T03", run: eval::t03, assumptions: a,
      explain: "state = distinct program with a defined meaning; transition = one run or printed line; trace = one run compared in output and value with a reference machine",
      bounds_quick: "every function body of <= 2 of 17 statements x 4 helper bodies x every main body of <= 2 of 15 call statements; every pair of one-parameter bodies of <= 2 of 11; 0..4 parameters with labels in every order; 25 pairs of global initialisers; up to 129 functions, parameters, globals and recursion that deep",
      bounds_thorough: "function bodies of 3 statements" },
    Check { id: "T04", run: syntax::t04, assumptions: a,
      explain: "state = distinct source text; transition = one token; trace = one parse compared with the tree it was printed from or with a recogniser on tokens",
      bounds_quick: "5 + 85 programs with every change of one gap and one token removed, doubled or swapped; 392 nested statements and 2300 pairs of statements; every token word of <= 3 over 13 (statements), 12 (expressions), 4 over 11 (definitions), 3 over 9 (counting loops); every one of 47 further tokens (signs of no program, digits and blanks of other scripts) inserted at every place in two spacings; integer literals of every length and around the limits of 64 bits; every string literal of <= 2 of 17 pieces; up to 300 statements, parameters, elements, names and strings that long, nesting to 20",
      bounds_thorough: "nesting depth 3, words of 5 and 6, literals of 3 pieces, every token and gap change" },
  ])
}
