mod api;
mod model;
mod text;

use mc_core::{main_with, Check};

fn main() {
  let a = &["texts beyond the bound behave like the enumerated ones: every character class has a representative"];
  main_with(&[
    Check { id: "U01", run: text::u01, assumptions: a,
      explain: "state = distinct URI text; transition = one component decision of the reference; trace = one run of Uri::parse whose accessors are all compared with the RFC 3986 split",
      bounds_quick: "every combination of a catalogue of 5 schemes, 9 user-infos, 12 hosts, 6 ports, 8 paths, 12 queries, 6 fragments (authority forms) and of 5 x 12 x 12 x 6 rootless and absolute forms; every word of <= 4 tokens over a 14-token delimiter alphabet after 8 prefixes; every pair of characters and every escape in 17 places, components of up to 1025 characters or parts (4097 in some places)",
      bounds_thorough: "words of <= 5 tokens after every prefix" },
    Check { id: "U02", run: text::u02, assumptions: a,
      explain: "state = distinct value; transition = one print or parse; trace = one parse, print, parse, print round (or assemble, print, parse, print)",
      bounds_quick: "every fifth combination of the U01 catalogue with the authority forms, every combination of the others, words of <= 4 tokens after 8 prefixes, and the same components assembled through the constructors; every pair of characters and every escape in 17 places, components of up to 1025 characters or parts (4097 in some places)",
      bounds_thorough: "every combination, words of <= 5 tokens" },
    Check { id: "U03", run: text::u03, assumptions: a,
      explain: "state = distinct host text; transition = one group or octet decision of the reference; trace = one parse of a URI with that host, in 2 surroundings",
      bounds_quick: "every IPv6 layout: 0..9 groups before and after the elision or 1..9 groups without, with each of 12 group texts at each place and with 6 IPv4 tails; every octet text 0..999 with 0..2 leading zeros at each of 4 places, 1..6 octets; every word of <= 6 tokens over {1, :, ::, ., ff, 1.2.3.4, g} in brackets; every single-character edit of 40 hosts; long names, literals and zeros",
      bounds_thorough: "words of <= 8 tokens, double edits" },
    Check { id: "U04", run: api::u04, assumptions: a,
      explain: "state = (initial parameters, history of operations); transition = one operation; trace = one history with every lookup and the printed text compared after every operation",
      bounds_quick: "every initial list of <= 2 parameters, every history of <= 4 operations out of 11; every query word of <= 6 tokens over 9 tokens; up to 1025 parameters with one or many names",
      bounds_thorough: "histories of <= 5 operations, words of <= 7 tokens" },
    Check { id: "U05", run: text::u05, assumptions: a,
      explain: "state = distinct text; transition = one character; trace = one run of Uri::parse compared on acceptance, its error displayed and inspected",
      bounds_quick: "every word of <= 5 tokens over 16 tokens (one per character class, a control, a space and two non-ASCII characters), and of <= 4 after 10 prefixes; every single-character edit of 30 URIs; every byte value below U+0180 in every component; every pair of characters and every escape in 17 places, components of up to 1025 characters or parts (4097 in some places)",
      bounds_thorough: "words of <= 6 tokens (<= 5 after prefixes); double edits of the short URIs" },
    Check { id: "U06", run: api::u06, assumptions: a,
      explain: "state = (initial path, history of edits); transition = one operation; trace = one history with parts, emptiness, kind and printed text compared after every operation",
      bounds_quick: "every constructor over every list of <= 2 parts, every history of <= 5 operations out of 8; every path word of <= 6 tokens over 8 tokens in 3 surroundings; paths of up to 1025 parts",
      bounds_thorough: "histories of <= 6 operations, words of <= 7 tokens" },
  ])
}
