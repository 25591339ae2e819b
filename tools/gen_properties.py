#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))
PI = "parser/src/internal/parsers_impl/"

# ---------------------------------------------------------------- parser combinators
p("P01", "Ordered choice backtracks exactly when the failed branch is uncommitted",
  "A choice returns its first alternative's result unless that alternative failed without commitment, in which case it returns exactly what the second alternative yields from the same position; optional, lookahead (peek/exists) and negation parsers follow the same rule and lookahead never consumes input. "
  "A failure is committed exactly when a literal/sequence had already matched at least one element before mismatching, when a monadic bind had already consumed input before its continuation failed, or when the failing parser itself was committed, and an attempt turns a committed failure into an uncommitted one without changing anything else. "
  "Pairing and skipping propagate the failing component's own commitment unchanged.",
  ["programs", "inputs"], "every parser term built from the choice family up to the term bound, on every input word up to the length bound, from every start offset",
  "Unit tests cover one or two alternatives on one input; commitment is a property of every nesting of branches and every input on which a branch fails part-way.",
  [PI + "operator_parsers_impl.rs", "parser/src/internal/parsers_impl.rs", "parser/src/core/parse_result.rs", "parser/src/core/committed_status.rs", PI + "peek_parsers_impl.rs"],
  [("or/attempt/opt/exists/not", PI + "operator_parsers_impl.rs"), ("flat_map add_commit", "parser/src/internal/parsers_impl.rs"), ("CommittedStatus::or", "parser/src/core/committed_status.rs")],
  [("committed_status", "whether a failure forbids trying alternatives", "ParseResult::Failure")],
  ["ParseResult returned by Parser::run / Parser::parse"])

p("P02", "Sequencing resumes exactly where the previous parser stopped",
  "When parsers are sequenced (pairing, skip-left, skip-right, surround, bind) each one starts exactly at the position where the previous one stopped, the kept values come from the right components in order, and the reported consumed length is the sum of the components' consumed lengths. "
  "Collecting returns precisely the consumed slice, the offset queries report the absolute position of the last consumed element and of the next one, discard/map leave the consumed length unchanged, and the sequence fails exactly when the first failing component fails.",
  ["programs", "inputs"], "every sequencing term up to the term bound, on every input word up to the length bound, from every start offset",
  "Tests check final values of a handful of grammars from offset 0; wrong length accounting only shows up when parsers are nested, start at a non-zero offset, or are followed by another parser.",
  [PI + "operator_parsers_impl.rs", PI + "skip_parser_impl.rs", PI + "collect_parsers_impl.rs", PI + "offset_parsers_impl.rs", PI + "discard_parsers_impl.rs", "parser/src/internal/parsers_impl.rs", "parser/src/core/parse_state.rs"],
  [("and_then", PI + "operator_parsers_impl.rs"), ("skip_left/skip_right/surround", PI + "skip_parser_impl.rs"), ("advance_by/slice_with_len", "parser/src/core/parse_state.rs"), ("advance_success", "parser/src/core/parse_result.rs")],
  [("offset", "absolute position of the parse", "ParseState")], ["Parser::run", "Parser::parse"])

p("P03", "Single-element parsers accept exactly their documented element class",
  "Each single-element parser (any, equality, predicate, set membership, closed and half-open range, none-of, space, multi-space, alphabetic, alphanumeric, digit, digit 1-9, hexadecimal, octal, end of input) succeeds on exactly the elements of its documented class, consumes exactly one element (end consumes none), returns that element, and otherwise fails uncommitted without consuming; by-reference and by-value variants agree. "
  "The element classification predicates for bytes and characters agree with the ASCII definition they document.",
  ["inputs"], "every byte value and every Unicode scalar value below a bound (plus selected higher ones), for every element parser, at several offsets and at end of input",
  "The doc tests try members of each class but almost never non-members or class boundaries.",
  [PI + "element_parsers_impl.rs", "parser/src/extension/parsers/element_parsers.rs", "parser/src/core/element.rs", "parser/src/utils/set.rs", "parser/src/lib.rs", PI + "primitive_parsers_impl.rs"],
  [("elm_pred_ref/elm_ref_of/elm_ref_in/...", PI + "element_parsers_impl.rs"), ("Element impls", "parser/src/core/element.rs"), ("Set impls", "parser/src/utils/set.rs")],
  [], ["Parser::run", "Element trait methods"])

p("P04", "Literal, regex, take and skip parsers consume exactly what they match",
  "A literal or sequence parser succeeds exactly when the remaining input starts with the literal (ASCII case-insensitively for the case-insensitive form) and consumes exactly that many elements; a regex parser succeeds exactly when the pattern matches at the current position, returns the leftmost-first match anchored there and consumes that many characters (not bytes). "
  "take/skip consume exactly n elements or fail without consuming; take-while parsers return one maximal contiguous run of matching elements within their count bounds and take-till parsers return everything up to and including the first terminator, and in every case the next parser resumes immediately after the returned run.",
  ["inputs", "configurations"], "every literal/pattern/predicate/count from a small alphabet (including multi-byte characters) on every input word up to the length bound, from every start offset, followed by another parser",
  "Tests use one ASCII input per parser from offset 0 and never look at the position afterwards.",
  [PI + "elements_parsers_impl.rs", PI + "taken_parsers_impl.rs", PI + "skip_parser_impl.rs"],
  [("seq/tag/tag_no_case/regex", PI + "elements_parsers_impl.rs"), ("take*/take_while*/take_till*", PI + "taken_parsers_impl.rs")],
  [], ["Parser::run"])

p("P05", "Repetition honours its bounds, is greedy, and keeps no dangling separator",
  "A repetition with bounds min..max succeeds exactly when at least min items match in a row, returns between min and max items in input order, takes as many as possible up to max, and fails uncommitted otherwise. "
  "With a separator, a separator is consumed only between two items that are both returned, so input left after the repetition starts right after the last returned item. "
  "Repetition always terminates, even when the repeated parser succeeds without consuming input.",
  ["programs", "inputs", "configurations"], "every repetition form and range kind with bounds 0..4, over every item/separator parser from a small set, on every input word up to the length bound, from every start offset",
  "Tests pick one count per form; boundary counts (0, max reached, min missed by one), trailing separators and empty items are combinations no test enumerates.",
  [PI + "repeat_parsers_impl.rs", "parser/src/internal/parser_impl/repeat_parser_impl.rs", "parser/src/utils/range.rs"],
  [("repeat_sep", PI + "repeat_parsers_impl.rs"), ("RangeArgument", "parser/src/utils/range.rs")],
  [], ["Parser::run"])

p("P06", "Operator chains fold with the associativity their name declares",
  "For a chain x1 op1 x2 op2 ... xn the left-associative chain parsers return ((x1 op1 x2) op2 ...) and the right-associative ones return (x1 op1 (x2 op2 ...)), using every operand and operator of the longest such prefix in order and consuming exactly it. "
  "The zero-or-more forms return the given default without consuming when no first operand is present, and a dangling operator that consumed input without a following operand is a committed failure.",
  ["programs", "inputs"], "every chain form over every operand/operator parser from a small set on every input word up to the length bound, from every start offset",
  "Associativity shows only from the third operand on and only with a non-associative operator; no repository test runs a right-associative chain.",
  [PI + "operator_parsers_impl.rs", "parser/src/extension/parsers/operator_parsers.rs", "parser/src/internal/parser_impl/operator_parser_impl.rs"],
  [("chain_left1/chain_right1/rest_left1/rest_right1", PI + "operator_parsers_impl.rs"), ("chain_left0/chain_right0", "parser/src/extension/parsers/operator_parsers.rs")],
  [], ["Parser::run"])

p("P07", "Caching a parser never changes its observable behaviour",
  "For every history of runs of a cached parser - over different inputs, different offsets, repeated and interleaved, alone or embedded in a larger or recursive grammar - each run returns exactly the value, length or failure the uncached parser returns for that input and position.",
  ["histories", "inputs"], "every sequence of (input, offset) runs up to the history bound against one cached parser instance, with parse states and inputs deliberately placed at reused addresses, plus every grammar term with caches inserted",
  "A stale hit needs a second run that collides with the first one's key; single-shot tests never create one.",
  [PI + "cache_parsers_impl.rs"],
  [("result cache and its key", PI + "cache_parsers_impl.rs")],
  [("caches", "memoised results per parser instance", PI + "cache_parsers_impl.rs")], ["Parser::run on a cache()d parser"])

p("P08", "Running a parser is a pure, repeatable function of input and position",
  "Running a parser (or a clone of it, or the same grammar built lazily or rebuilt from scratch) twice at the same position of equal inputs gives equal results, whatever runs happened in between, and running it at offset k of an input is the same as running it on the input with the first k elements removed, up to the absolute offsets it reports. "
  "User closures are invoked only on values the parser produced, and no later branch is evaluated after an earlier one has decided the result.",
  ["histories", "programs", "inputs"], "every interleaving up to the history bound of runs of two grammar terms and their clones over every pair of inputs and offsets up to the length bound",
  "Tests build a parser, run it once and drop it.",
  ["parser/src/core/parser.rs", "parser/src/internal/parser_impl/parser_runner_impl.rs", PI + "lazy_parsers_impl.rs", "parser/src/core/parse_state.rs"],
  [("Rc-shared parse closure, Clone", "parser/src/core/parser.rs"), ("lazy", PI + "lazy_parsers_impl.rs")],
  [], ["Parser::run", "Parser::parse", "Clone"])

p("P09", "Every failure can be inspected and displayed without crashing",
  "For every failing parse, displaying the error, asking for its kind, its offending input and its offending text all return normally. "
  "The offending input it reports is a sub-slice of the input that was parsed, located at or after the position where the failing parser started, and any offset shown lies within the input or just past its end.",
  ["programs", "inputs"], "every failing (term, input, offset) within the bounds of the other parser properties",
  "Tests only call is_err()/is_failure(); none inspects the error of a failure at a non-zero offset or at the end of input.",
  ["parser/src/core/parse_error.rs", PI + "element_parsers_impl.rs", PI + "elements_parsers_impl.rs", PI + "repeat_parsers_impl.rs", PI + "operator_parsers_impl.rs", PI + "conversion_parsers_impl.rs", PI + "primitive_parsers_impl.rs"],
  [("ParseError::input/input_string/Display", "parser/src/core/parse_error.rs"), ("of_mismatch/of_conversion call sites", PI + "element_parsers_impl.rs")],
  [], ["ParseError::input", "ParseError::input_string", "Display for ParseError"])

p("P10", "Mapping, binding, filtering and converting obey their algebraic laws",
  "Mapping the identity changes nothing and mapping composes; binding satisfies left identity, right identity and associativity on value, length and success; filtering keeps exactly the successes whose value satisfies the predicate (and its negated form exactly the others), and fallible conversion keeps exactly the successes it can convert. "
  "A rejected value is an uncommitted failure, failures of the underlying parser pass through unchanged, and no conversion alters the consumed length.",
  ["programs", "inputs"], "every law instance over every parser term and closure from a small set, on every input word up to the length bound, from every start offset",
  "A law is a universally quantified equation between programs; tests exercise single instances.",
  ["parser/src/internal/parsers_impl.rs", "parser/src/core/parser_filter.rs", "parser/src/core/parser_monad.rs", "parser/src/core/parser_functor.rs", PI + "conversion_parsers_impl.rs", "parser/src/core/parse_result.rs"],
  [("map/flat_map/filter", "parser/src/internal/parsers_impl.rs"), ("map_res", PI + "conversion_parsers_impl.rs")],
  [], ["Parser::run", "ParseResult combinators"])

p("P11", "Operators, aliases, naming and logging never change a parse",
  "The operator notations (+, -, *, |, !), the free-function forms and the alternative entry points (parse, parse-as-result, run at offset 0, the public parser facade) give the same outcome as the methods they stand for. "
  "Attaching a name or a log level to a parser changes neither value, consumed length, success nor commitment; naming only wraps the reported error.",
  ["programs", "inputs"], "every alias and every decorated sub-term of every parser term up to the term bound on every input word up to the length bound",
  "Each alias is a separate code path that the tests use interchangeably without comparing.",
  ["parser/src/internal/parser_impl/add_impl.rs", "parser/src/internal/parser_impl/sub_parser_impl.rs", "parser/src/internal/parser_impl/mul_parser_impl.rs", "parser/src/internal/parser_impl/bitor_impl.rs", "parser/src/internal/parser_impl/not_impl.rs", PI + "logging_parsers_impl.rs", "parser/src/core/parsers.rs", "parser/src/core/parser_runner.rs"],
  [("operator impls", "parser/src/internal/parser_impl/"), ("name/log", PI + "logging_parsers_impl.rs")],
  [], ["Parser::run", "Parser::parse", "Parser::parse_as_result"])

# ---------------------------------------------------------------- crond
p("C01", "A cron expression is accepted exactly when it is in the five-field grammar",
  "Parsing succeeds exactly for five fields separated by single spaces, each a comma list of values and ranges (with an optional step on a range), a starred step, or a star, whose numbers (values, range ends and steps alike) lie in the field's domain (minute 0-59, hour 0-23, day 1-31, month 1-12, weekday 1-7 or SUN-SAT or L; leading zero allowed on two-digit fields), with nothing before or after. "
  "The returned expression carries exactly the numbers, ranges, steps and list order that were written, field by field, and every rejected text yields an error value rather than a crash.",
  ["inputs"], "every field text up to the length bound over the field alphabet in each of the five positions, and every pair of field shapes across positions, plus every single-character edit of valid expressions",
  "Tests parse about a dozen expressions; out-of-domain numbers, trailing text and cross-field mixups are not sampled.",
  ["crond/src/cron_parser.rs"],
  [("field digit parsers, list/range/per", "crond/src/cron_parser.rs"), ("CronParser::parse", "crond/src/cron_parser.rs")],
  [], ["CronParser::parse", "CronSchedule::new"])

p("C02", "A schedule matches an instant exactly when every field admits it",
  "An instant satisfies an expression exactly when its minute, hour, day of month, month and weekday (Sunday=1 .. Saturday=7) are each admitted by the corresponding field: star admits all, a value only itself, a range its inclusive span, a step every n-th value counted from the start of the span (the field's lowest value for a starred step), a list the union of its members, and L (alone or in a list) the last weekday of the week; a range written backwards and a step of 0 admit nothing. "
  "The answer depends on nothing else about the instant, is given in the instant's own time zone, and evaluation never crashes for an accepted expression.",
  ["inputs", "configurations"], "every field shape with every bound value, against every value of the field, over full calendars (leap and non-leap years, every month length) and several UTC offsets",
  "Tests evaluate three expressions at one instant; the weekday field is never evaluated.",
  ["crond/src/cron_evaluator.rs", "crond/src/cron_specification.rs", "crond/src/lib.rs", "crond/src/cron_environment.rs"],
  [("CronEvaluator::eval/visit", "crond/src/cron_evaluator.rs"), ("get_days_from_month", "crond/src/lib.rs")],
  [("CronEnvironment{now,max}", "field value and upper bound under evaluation", "crond/src/cron_environment.rs")],
  ["CronSpecification::is_satisfied_by", "CronEvaluator::eval"])

p("C03", "The schedule iterator yields every matching minute once, in order",
  "Starting from any instant (to the millisecond), the iterator yields exactly the instants start + k minutes that satisfy the schedule, strictly increasing, beginning with the start itself when it matches, none skipped and none repeated, in the requested time zone. "
  "For an interval with an end it yields no instant after the end, yields the end itself when it matches, and then terminates, staying exhausted.",
  ["histories", "configurations"], "every expression from a shape set, every start in a set chosen around minute/hour/day/month/year/leap boundaries, every end offset up to a bound, several UTC offsets, for as many steps as the window holds",
  "The one iterator test takes five elements of one open-ended schedule.",
  ["crond/src/cron_interval_iterator.rs", "crond/src/cron_interval.rs", "crond/src/cron_schedule.rs"],
  [("next/proceed_next/end_value", "crond/src/cron_interval_iterator.rs"), ("CronSchedule::upcoming", "crond/src/cron_schedule.rs")],
  [("curr,next", "current and next candidate minute", "crond/src/cron_interval_iterator.rs")],
  ["CronIntervalIterator::next", "CronSchedule::upcoming", "CronInterval::iter"])

# ---------------------------------------------------------------- uri
p("U01", "URI text is split into the components RFC 3986 assigns",
  "For every valid URI (the scheme in front of ':' may be missing), scheme, user name, password, host, port, path, query and fragment are exactly the substrings RFC 3986 delimits, present exactly when their delimiter is present, and the accessors on the URI agree with each other. "
  "Absent components are reported as absent, never as a neighbouring component's text.",
  ["inputs"], "every URI assembled from every combination of component texts in a catalogue covering each delimiter and character class, and every word up to the length bound over the delimiter alphabet",
  "Tests draw random well-formed URIs and only compare the re-printed text, which cannot detect text assigned to the wrong component.",
  ["uri/src/parsers/uri_parsers.rs", "uri/src/parsers/hier_part_parsers.rs", "uri/src/parsers/authority_parsers.rs", "uri/src/parsers/user_info_parsers.rs", "uri/src/parsers/host_parsers.rs", "uri/src/parsers/path_parsers.rs", "uri/src/parsers/query_parsers.rs", "uri/src/parsers/fragment_parsers.rs", "uri/src/models/uri.rs"],
  [("uri()", "uri/src/parsers/uri_parsers.rs"), ("hier_part()", "uri/src/parsers/hier_part_parsers.rs"), ("authority()", "uri/src/parsers/authority_parsers.rs")],
  [], ["Uri::parse", "Uri accessors"])

p("U02", "Printing a parsed URI reproduces it",
  "For every accepted URI text, printing the parsed value and parsing that again gives an equal value, and the printed text equals the original except for the spelling of an IPv6 address and leading zeros of the port. "
  "The same holds for values assembled from parts through the public constructors from component texts.",
  ["inputs"], "every accepted text within the bounds of U01 and every value assembled from the component catalogue",
  "The round-trip test samples random URIs of one shape.",
  ["uri/src/models/uri.rs", "uri/src/models/authority.rs", "uri/src/models/path.rs", "uri/src/models/query.rs", "uri/src/models/user_info.rs", "uri/src/models/host_name.rs", "uri/src/models/hier_part.rs"],
  [("Display impls", "uri/src/models/")], [], ["Display for Uri", "Uri::parse"])

p("U03", "IP-literal and IPv4 hosts are recognised exactly and with the right value",
  "A bracketed host is accepted as an IPv6 address exactly when the text between the brackets is an RFC 3986 IPv6address, and its value is that address; a bracketed v-form (either case) is kept verbatim as a future literal, and any other bracketed text is rejected. "
  "An unbracketed host is an IPv4 address with that value exactly when it is four dot-separated decimal octets 0-255 without superfluous leading zeros, and a registered name otherwise.",
  ["inputs"], "every group layout of an IPv6 address (every number of groups before and after the elision, every group width, with and without an embedded IPv4 tail), every octet text 0-999 in each position, and near-miss edits of each",
  "The property-based tests sample valid addresses only, form by form.",
  ["uri/src/parsers/ip_v6_address_parsers.rs", "uri/src/parsers/ip_v4_address_parsers.rs", "uri/src/parsers/host_parsers.rs"],
  [("ip_v6_address1..9", "uri/src/parsers/ip_v6_address_parsers.rs"), ("dec_octet", "uri/src/parsers/ip_v4_address_parsers.rs"), ("host()", "uri/src/parsers/host_parsers.rs")],
  [], ["Uri::parse(..).host_name()"])

p("U04", "Query parameters form an ordered multi-map of what was written",
  "The parameters of a query are the '&'-separated items of its text in order, each split at its first '=', a key without '=' having no value; looking up a key returns all its values in the order written, nothing for a key that is absent and an empty list for one that never has a value. "
  "Adding parameters appends them (adding an absent value adds nothing), leaves the others untouched, and is reflected by lookup and by printing.",
  ["histories", "inputs"], "every sequence of add/add-optional/lookup/print operations up to the history bound from every initial parameter list up to the size bound, and every query word up to the length bound",
  "One test looks up two keys of one query.",
  ["uri/src/models/query.rs", "uri/src/parsers/query_parsers.rs"],
  [("params/get_param/add/add_opt/as_string", "uri/src/models/query.rs"), ("query()", "uri/src/parsers/query_parsers.rs")],
  [("params", "ordered key/optional value list", "uri/src/models/query.rs")], ["Query API", "Uri::parse(..).query()"])

p("U05", "Malformed URI text is rejected, never truncated or crashed on",
  "A text is accepted exactly when the whole of it is a URI (the scheme may be missing, an empty port may not): any character outside the component's character set, a stray or incomplete percent escape, or a port that is not a number up to 65535 makes parsing return an error. "
  "Parsing arbitrary text always returns normally, and every error it returns can be displayed.",
  ["inputs"], "every word up to the length bound over an alphabet with one representative of every character class (including non-ASCII), and every single-character insertion, deletion and replacement in a catalogue of valid URIs",
  "No test feeds a malformed URI.",
  ["uri/src/parsers/uri_parsers.rs", "uri/src/parsers/basic_parsers.rs", "uri/src/parsers/port_parsers.rs", "uri/src/models/uri.rs"],
  [("Uri::parse", "uri/src/models/uri.rs"), ("pchar/pct_encoded", "uri/src/parsers/basic_parsers.rs"), ("port()", "uri/src/parsers/port_parsers.rs")],
  [], ["Uri::parse"])

p("U06", "Path values keep their parts through every edit and conversion",
  "A path's parts are exactly those it was built or parsed from, in order; appending adds at the end (a path of the empty kind stays empty), converting between rooted and rootless kinds keeps the parts and changes only the kind, emptiness means having no parts, and printing concatenates the parts. "
  "Parsing gives a path one part per segment with its leading slash, so the parts of a parsed path concatenate to the path text.",
  ["histories", "inputs"], "every sequence of path edits and conversions up to the history bound from every path kind, and every path word up to the length bound",
  "No test edits or converts a path.",
  ["uri/src/models/path.rs", "uri/src/parsers/path_parsers.rs"],
  [("add_part/add_parts/with_parts/to_*", "uri/src/models/path.rs"), ("path_*()", "uri/src/parsers/path_parsers.rs")],
  [], ["Path API", "Uri::parse(..).path()"])

# ---------------------------------------------------------------- hocon
p("H01", "Configuration scalars read back as the value that was written",
  "Booleans, null, quoted and unquoted strings, integers and decimal numbers (with sign, fraction and exponent) written as the value of a key read back with the same type and value, and numeric conversions succeed exactly when the number is representable in the requested type. "
  "A number outside the range of the decimal type never reads as a different number and never crashes.",
  ["inputs"], "every number word up to the length bound over digits, sign, point and exponent, every short quoted and unquoted string, and every number at the edges of every integer type",
  "Tests read a few small positive numbers.",
  ["hocon/src/parsers.rs", "hocon/src/model/config_value.rs", "hocon/src/model/config_number_value.rs"],
  [("number_value/string/boolean/null", "hocon/src/parsers.rs"), ("to_i*/to_u*/to_f*", "hocon/src/model/config_number_value.rs")],
  [], ["ConfigFactory::parse_from_string", "Config::get_value", "ConfigValue accessors"])

p("H02", "Later definitions override or merge into earlier ones, key by key",
  "Reading a key path returns the value of its last definition, except that when both the earlier and the later value are objects they merge recursively with the later one winning on conflicts; keys defined only once are never lost. "
  "Dotted keys and nested objects are interchangeable ways to write the same path, and a path is reported present exactly when reading it returns a value.",
  ["programs", "inputs"], "every document of up to N definitions over a small set of key paths, value kinds and spellings (dotted or nested, at root or inside an object)",
  "Tests cover a few hand-written documents; loss or misordering needs particular combinations of spellings and duplicates.",
  ["hocon/src/model/config_value.rs", "hocon/src/model/config_object_value.rs", "hocon/src/model.rs"],
  [("merge_with/resolve", "hocon/src/model/config_value.rs"), ("push/get_value/contains", "hocon/src/model/config_object_value.rs")],
  [], ["Config::get_value", "Config::has_path"])

p("H03", "Substitutions resolve to the value of the referenced path",
  "A reference to a path that is defined elsewhere in the document reads as that path's value, wherever the definition stands and however long the chain of references, inside objects and arrays alike. "
  "A key that refers to itself means the value it had before that definition. "
  "An optional reference that resolves to nothing leaves the previously defined value of its key in force, an environment variable supplies the value only when the document does not, and a document with a required reference that leads nowhere is rejected. "
  "(What references that go round in a circle through several keys mean, and whether an unresolvable reference that a later definition overrides is an error, is left open; neither may crash.)",
  ["programs", "configurations"], "every document of up to N definitions over a small key set in which each value is a constant, a reference, an optional reference or an overriding pair, with and without a matching environment variable",
  "Tests cover one reference shape each.",
  ["hocon/src/model/config_value.rs", "hocon/src/model/config_value_link.rs", "hocon/src/model.rs"],
  [("resolve", "hocon/src/model/config_value.rs")], [], ["Config::get_value"])

p("H04", "Durations convert to the exact time span written",
  "A duration written as a non-negative integer or decimal fraction followed by any of the documented unit spellings (nanoseconds to days, long and short forms, singular and plural, with or without space on the same line) reads back as exactly that span down to the nanosecond, for every unit, and the span is refused (no value) when it does not fit the duration type.",
  ["inputs"], "every unit spelling with every separator form and every number from a boundary set, whole and fractional",
  "Tests read one or two durations.",
  ["hocon/src/parsers.rs", "hocon/src/model/config_duration_value.rs", "hocon/src/model/time_unit.rs"],
  [("duration_value/unit parsers", "hocon/src/parsers.rs"), ("to_duration", "hocon/src/model/config_duration_value.rs")],
  [], ["ConfigValue::as_duration", "ConfigDurationValue::to_duration"])

p("H05", "Loading configuration text never crashes",
  "For every text, loading it returns either a configuration or an error value; malformed, truncated or empty documents and unreadable files are reported as errors or as an empty configuration, never as a panic or an endless loop (nesting up to 64 levels deep).",
  ["inputs", "fault_sequences"], "every word up to the length bound over a token alphabet covering the grammar, every truncation and single-token deletion of a catalogue of valid documents, and missing/unreadable files",
  "Tests load well-formed documents only.",
  ["hocon/src/model.rs", "hocon/src/parsers.rs", "hocon/src/model/config_value.rs"],
  [("parse_from_string/load_from_file", "hocon/src/model.rs"), ("hocon grammar", "hocon/src/parsers.rs")],
  [], ["ConfigFactory::parse_from_string", "ConfigFactory::load_from_file"])

p("H06", "Layout and notation do not change the meaning of a configuration",
  "Adding whitespace, blank lines and comments between tokens, writing ':' or '=' (or nothing before an object), separating object members by comma or newline, ending the last one with a comma, and wrapping the document in braces or not all yield the same configuration. "
  "A comment is what follows '#' or '//' up to the end of the line (after an unquoted word '//' needs a blank in front). "
  "Array elements, separated by commas, keep their written order and number under every such layout.",
  ["programs", "inputs"], "every document of a small document set in every combination of layout choices at every token gap up to the deviation bound",
  "Tests use one layout per document.",
  ["hocon/src/parsers.rs"],
  [("whitespace/comment/separator parsers", "hocon/src/parsers.rs")], [], ["ConfigFactory::parse_from_string", "Config::get_value"])

p("H07", "A printed configuration loads back as the same configuration",
  "Printing a loaded configuration (Display of Config, of its values and of its objects) gives text that loads without error and reads as the same configuration: the same keys, types, values and array order, including strings and keys with quotes, backslashes, control characters, empty strings and strings that look like another type.",
  ["inputs", "programs"], "every string up to the length bound over an alphabet of special characters as a value, every scalar of the scalar catalogue, and every object/array tree up to the size bound",
  "No test prints a configuration and loads it again.",
  ["hocon/src/model/config_value.rs", "hocon/src/model/config_object_value.rs", "hocon/src/model/config_array_value.rs", "hocon/src/model/config_number_value.rs", "hocon/src/model/config_duration_value.rs"],
  [("Display impls", "hocon/src/model/")], [], ["Display of Config and ConfigValue", "ConfigFactory::parse_from_string"])

p("H08", "Including a file means the same as having its contents in its place",
  "A document with an include reads exactly as if the members of the included file stood in the including object at that position: they override what stands before, are overridden by what stands after, merge with objects on either side, and may themselves include further files. "
  "A file that does not exist includes nothing; a file that cannot be read or parsed, and a chain of includes that comes back to a file being included, make loading an error, never a crash or an endless loop.",
  ["programs", "configurations", "fault_sequences"], "every pair of documents up to the definition bound joined by an include at every position and in every spelling, every include graph on up to three files, and every fault (missing, directory, not UTF-8, malformed) at every place of an include chain",
  "No test loads a document that includes an existing file.",
  ["hocon/src/model/config_value.rs", "hocon/src/model/config_include_value.rs", "hocon/src/parsers.rs", "hocon/src/model.rs"],
  [("resolve of Include", "hocon/src/model/config_value.rs"), ("include parser", "hocon/src/parsers.rs")], [("INCLUDING", "files being included", "hocon/src/model/config_value.rs")],
  ["ConfigFactory::load_from_file", "ConfigFactory::parse_from_string"])

# ---------------------------------------------------------------- toys
p("T01", "Toy-language expressions group by precedence and associate to the left",
  "In an expression '*' and '/' bind tighter than '%', which binds tighter than '+' and '-', which bind tighter than the comparison and logical operators; operators of one level associate to the left and parentheses override both. "
  "The parsed expression contains every operand and operator of the source exactly once in order, and spacing never changes it.",
  ["programs", "inputs"], "every operator sequence of up to N operators with every placement of one parenthesised group, in compact and spaced spelling",
  "Tests parse one two-operator expression.",
  ["toys/src/parsers.rs"],
  [("comparative/additive/moditive/multitive/primary", "toys/src/parsers.rs")], [], ["parsers::expression (via the program parser)"])

p("T02", "Evaluating a toy program computes what its source denotes",
  "Interpreting an accepted program gives integer arithmetic, comparisons and boolean logic their usual value (division truncates towards zero, and the remainder has the sign of the dividend), a block the value of its last expression, an assignment the new binding for all later reads in scope, and an if only the branch its condition selects. "
  "A while body runs exactly as long as its condition holds and a for body exactly once per value from the lower bound up to but excluding the upper bound, in order (integer division by zero, overflow, type errors, unbound names, a loop body that changes the counter or the bound, and short-circuiting of calls are open).",
  ["programs"], "every program up to the size bound over integers, variables, arithmetic, comparison, logic, assignment, block, if, while and for",
  "Tests interpret a handful of fixed programs and mostly only print.",
  ["toys/src/interpreter.rs", "toys/src/expr.rs", "toys/src/environment.rs", "toys/src/values.rs"],
  [("Interpreter::interpret", "toys/src/interpreter.rs"), ("Environment::find_binding", "toys/src/environment.rs")],
  [("bindings", "variable scopes", "toys/src/environment.rs")], ["Interpreter::interpret", "Interpreter::call_main"])

p("T03", "Toy functions receive their arguments and keep their own scope",
  "Calling a function evaluates its arguments left to right in the caller's scope, binds each to the corresponding parameter (by position or by label), evaluates the body with global definitions visible (an assignment to a global's name changes the global), and returns the body's value. "
  "Assignments to parameters or local names inside a call are invisible to the caller and to other calls, including recursive ones.",
  ["programs"], "every program of up to two functions and one global with every call form and parameter use up to the size bound",
  "No test passes an argument and reads it back.",
  ["toys/src/interpreter.rs", "toys/src/environment.rs"],
  [("FunctionCall/LabelledCall", "toys/src/interpreter.rs")], [("function_environment, variable_environment", "definitions and scopes", "toys/src/interpreter.rs")],
  ["Interpreter::call_main"])

p("T04", "Toy program text maps one to one to the syntax tree it spells",
  "Parsing program text rendered from a syntax tree of definitions, assignments, calls, conditionals, loops and blocks gives back that same tree under every optional spacing and line layout, and text that is not a program as a whole is rejected with an error rather than a crash or a partial reading. "
  "Names may begin with a keyword (whether a keyword itself may serve as a name is open), string escapes mean the usual characters, and an else belongs to the nearest if.",
  ["programs", "inputs"], "every syntax tree up to the size bound in every layout variant, and every single-token deletion of it",
  "Tests parse one text per statement kind.",
  ["toys/src/parsers.rs"], [("statement parsers", "toys/src/parsers.rs")], [], ["parsers::program"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
