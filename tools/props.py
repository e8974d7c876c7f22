"""The properties: what is claimed, how each is decided. tools/gen.py writes properties.jsonl and MANIFEST.json from this."""
COMB_RULE = ("a case is a random parser term (combinators of this property over a small alphabet, nested up to 4 deep) with 1-4 inputs, start offsets and "
             "re-runs of the same parser object, executed by the library and by an independent interpreter of the contracts; an execution counts as "
             "non-trivial when it consumed at least one element or failed; distinct = distinct (term, input) texts")
COMB_ASSUME = [
    "partial correctness: termination of parsers is not proved (a repetition over an item that succeeds without consuming diverges by definition)",
    "user closures are total functions (they do not panic, and answer the same for the same argument where the contract needs it)",
    "Clone of element and value types is faithful; element types are not zero-sized, so slices are at most isize::MAX long",
    "the text of error messages is not specified; the committed status and whether a failure is passed on unchanged are",
    "the extraction drops lifetimes/'static bounds on type parameters, attributes, and doc comments; `Parser` (an Rc'd closure) is opaque: Parser::new/run are trusted to store and call the closure",
]
LN = ("Every function of the combinator library this property rests on is extracted verbatim from /repo on each run, given its contract, and accepted by Verus "
      "(all inputs, all element types, all user parsers, no bound). ")
LN2 = "Trusted: the wrapper that stores a closure in an Rc and calls it, std method specifications. A seeded executable form of the same contracts runs against the real crate to give failing inputs and to cover what the verifier cannot take."
P = "parser/src"
PROPS = {}


def prop(id, title, statement, over, text, why, files, mech, units, harness, rule, assumptions, note, **kw):
    PROPS[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mech, units=units,
                     harness=harness, rule=rule, assumptions=assumptions, level_note=note, **kw)


prop("C01", "Sequencing consumes exactly the sum of its parts and delivers the right values",
     "A sequence of parsers (pairing, keeping only the left or right result, surrounding by delimiters, monadic bind, mapping, discarding, and their operator forms) succeeds exactly when each part succeeds on the input left by the previous one. It then consumes the sum of what the parts consumed and returns the documented value (both results, the left, the right, the middle, the mapped value). Parsing a whole input is running the parser at its beginning and reporting the same value or error; constants consume nothing, end-of-input succeeds only with nothing left, and the value/failure observers of a result describe that result.",
     ["inputs", "programs"], "for all parsers composed from the library's operations, all inputs and all start positions",
     "tests run a handful of fixed parsers on literal strings; the law is over every parser, every input and every position, and over nesting in which an inner part consumed nothing or the whole input",
     [f"{P}/core/parse_result.rs", f"{P}/core/parser_runner.rs", f"{P}/internal/parsers_impl.rs", f"{P}/internal/parsers_impl/skip_parser_impl.rs", f"{P}/internal/parser_impl/add_impl.rs"],
     [{"name": "and_then / skip_left / skip_right / surround / flat_map", "where": f"{P}/internal/parsers_impl"}, {"name": "ParseState::advance_by, ParseResult::advance_success", "where": f"{P}/core"}],
     ["parser"], "comb", COMB_RULE, COMB_ASSUME, LN + LN2)
prop("C02", "Ordered choice tries alternatives in order and never past a committed failure",
     "An alternative yields the first parser's success; the second parser runs, from the same position, exactly when the first failed without commitment, and its outcome is then the outcome. A committed failure of the first parser is the outcome of the choice; a bind whose first part consumed input commits a failure of its second part. Attempting a parser makes its failure uncommitted and changes nothing else, and an optional parser never fails: any failure of its inner parser becomes an absent value that consumes nothing.",
     ["inputs", "programs"], "for all parsers, all inputs and positions, all nestings of choice, bind, attempt and optional",
     "which alternative is taken depends on where inside a nested parser the failure happened and what had been consumed by then; tests sample single-level choices on short inputs",
     [f"{P}/core/committed_status.rs", f"{P}/core/parse_result.rs", f"{P}/internal/parsers_impl.rs", f"{P}/internal/parsers_impl/operator_parsers_impl.rs"],
     [{"name": "CommittedStatus, ParseResult::with_uncommitted/add_commit", "where": f"{P}/core"}, {"name": "or, attempt, optional", "where": f"{P}/internal/parsers_impl"}],
     ["parser"], "comb", COMB_RULE, COMB_ASSUME, LN + LN2)
prop("C03", "Lookahead answers correctly and consumes nothing",
     "Testing whether a parser matches, negating it, and peeking at its result consume no input whatever the inner parser consumed or how it failed. The negation succeeds exactly when the inner parser fails; the existence test is true exactly when it succeeds; peeking passes the inner value on. Collecting the consumed input returns exactly the elements the inner parser consumed, and the offset observers return the positions before and after it.",
     ["inputs", "programs"], "for all inner parsers, inputs and start positions",
     "an observer must hold for every inner parser and every way it can fail; tests use one literal each",
     [f"{P}/internal/parsers_impl/operator_parsers_impl.rs", f"{P}/internal/parsers_impl/peek_parsers_impl.rs", f"{P}/internal/parsers_impl/collect_parsers_impl.rs", f"{P}/internal/parsers_impl/offset_parsers_impl.rs", f"{P}/core/parse_state.rs"],
     [{"name": "exists, not, peek", "where": f"{P}/internal/parsers_impl/operator_parsers_impl.rs"}, {"name": "collect, last_offset, next_offset", "where": f"{P}/internal/parsers_impl/offset_parsers_impl.rs"}],
     ["parser"], "comb", COMB_RULE, COMB_ASSUME, LN + LN2)
prop("C04", "Repetition is greedy, keeps order, and honours its bounds and separators",
     "A repetition runs its item (and, between items, its separator) from where the previous one stopped until an item or separator fails or the upper bound is reached, and returns the items in order. It succeeds exactly when the number of items is within the stated range (any range form, exact counts, at-least-one, including zero), and fails otherwise. It consumes exactly what the taken items and separators consumed; an upper bound is never exceeded and a zero upper bound takes nothing.",
     ["inputs", "programs", "configurations"], "for all item and separator parsers, all range bounds (included, excluded, unbounded, empty), all inputs",
     "bounds times number of matching items times separator behaviour is unbounded; tests use a few counts with single-character items",
     [f"{P}/internal/parsers_impl/repeat_parsers_impl.rs", f"{P}/utils/range.rs"],
     [{"name": "repeat_sep loop over a range argument", "where": f"{P}/internal/parsers_impl/repeat_parsers_impl.rs"}],
     ["parser"], "comb", COMB_RULE, COMB_ASSUME, LN + LN2)
prop("C05", "Single-element parsers accept exactly their class and consume one element",
     "Each parser of one element (any element, a given element, a predicate, membership or non-membership in a set or range, and the character classes space, alphabetic, digit, hexadecimal, octal) succeeds exactly when there is a next element and it belongs to the class. On success it consumes exactly one element and returns that element; otherwise it fails, and it never reads beyond the end of the input. Membership in a set is decided by the set's own elements or bounds, inclusive or exclusive as written.",
     ["inputs", "configurations"], "for all elements, all sets and ranges, all inputs and positions including the end",
     "tests try one accepted and rarely one rejected element per class; the claim is over every element and every boundary of every range",
     [f"{P}/internal/parsers_impl/element_parsers_impl.rs", f"{P}/internal/parsers_impl/elements_parsers_impl.rs", f"{P}/core/element.rs", f"{P}/utils/set.rs"],
     [{"name": "elm_pred and the classes over it", "where": f"{P}/internal/parsers_impl/element_parsers_impl.rs"}, {"name": "Element, Set", "where": f"{P}/utils"}],
     ["parser"], "comb", COMB_RULE, COMB_ASSUME, LN + LN2)
prop("C06", "Literal and pattern parsers match exactly what stands at the current position",
     "A literal parser (element sequence, text, text ignoring ASCII/Unicode case as documented) succeeds exactly when the remaining input starts with the literal, consumes exactly the literal's length in elements and returns the literal. It fails when the input is a strict prefix of the literal or differs anywhere. A regular-expression parser matches only at the current position and consumes exactly the matched characters, whatever their encoded width.",
     ["inputs", "configurations"], "for all literals (including empty and non-ASCII), all patterns, all inputs and positions",
     "tests use short ASCII literals matched at offset 0; prefixes, non-ASCII text, mid-input positions and inputs that end inside the literal are not reached",
     [f"{P}/internal/parsers_impl/elements_parsers_impl.rs"],
     [{"name": "seq, tag, tag_no_case, regex", "where": f"{P}/internal/parsers_impl/elements_parsers_impl.rs"}],
     ["parser"], "comb", COMB_RULE, COMB_ASSUME, LN + LN2 + " The regular-expression parser calls the external regex crate and is decided by the bounded executable check only.")
prop("C07", "Taking and skipping runs of elements returns exactly the run",
     "Taking a given number of elements succeeds exactly when that many remain, and returns exactly them; skipping consumes the same without a value. Taking while a predicate holds passes over leading elements that do not satisfy it, returns the first run of elements that do, provided its length is within the stated bounds, and consumes exactly up to the end of that run; without any such element the forms that allow zero return an empty run and consume nothing, the others fail. Taking until a predicate holds returns everything up to and including the first element satisfying it; when there is none, the zero form returns all that is left and the other fails.",
     ["inputs", "configurations"], "for all predicates, counts, bounds, inputs and positions",
     "the boundary cases (no match, match at the very end, bound smaller than the run, empty input) form a product that tests sample a few points of",
     [f"{P}/internal/parsers_impl/taken_parsers_impl.rs", f"{P}/internal/parsers_impl/skip_parser_impl.rs"],
     [{"name": "take, take_while0/1/n_m, take_till0/1, skip", "where": f"{P}/internal/parsers_impl"}],
     ["parser"], "comb", COMB_RULE, COMB_ASSUME, LN + LN2)
prop("C08", "Operator chains associate the way their name says",
     "A left chain of operands joined by operator parsers combines them from the left, a right chain from the right, for every number of operands. The forms that allow zero operands return the given default without consuming when the chain fails without commitment; a chain consumes exactly its operands and the operators between them, and an operator that consumed input and has no operand after it makes it fail. The rest forms do the same starting from an operand already parsed.",
     ["inputs", "programs"], "for all operand and operator parsers, all (also non-associative) operator functions, all chain lengths",
     "tests use associative operators or at most two operators, for which both associations agree",
     [f"{P}/internal/parsers_impl/operator_parsers_impl.rs", f"{P}/extension/parsers/operator_parsers.rs"],
     [{"name": "chain_left1/chain_right1/rest_left1/rest_right1/scan_right1", "where": f"{P}/internal/parsers_impl/operator_parsers_impl.rs"}],
     ["parser"], "comb", COMB_RULE, COMB_ASSUME, LN + LN2)
prop("C09", "Caching, logging, naming and lazy construction do not change what a parser does",
     "A parser wrapped for caching, logging, naming or lazy construction gives on every input and position the same success, value and consumed length as the parser it wraps, and fails with the same commitment exactly when it fails. This holds however often and on however many different inputs the same wrapped parser is run.",
     ["inputs", "programs", "histories"], "for all inner parsers and all sequences of runs of one wrapped parser over different inputs and positions",
     "a stale cache entry shows only on a later run with another input or position; tests run each wrapped parser once",
     [f"{P}/internal/parsers_impl/cache_parsers_impl.rs", f"{P}/internal/parsers_impl/logging_parsers_impl.rs", f"{P}/internal/parsers_impl/lazy_parsers_impl.rs"],
     [{"name": "cache keyed by input and offset", "where": f"{P}/internal/parsers_impl/cache_parsers_impl.rs"}, {"name": "log, name, lazy", "where": f"{P}/internal/parsers_impl"}],
     ["parser"], "comb", COMB_RULE, COMB_ASSUME, LN + LN2 + " The cache (a HashMap behind a RefCell keyed by addresses) is decided by the bounded executable check only.")
prop("C10", "No parser reads outside its input, over-reports consumption, or panics",
     "Running any parser built from the library on any input at any position within it terminates without panicking (given that its repetitions make progress and the user's functions do not panic). A success never reports more elements than were left. Every failure can be displayed and inspected, and the input fragment it reports lies within the given input.",
     ["inputs", "programs"], "for all parsers built from the library's operations, all inputs, all start positions from the beginning to the end",
     "an out-of-range index needs a particular combination of position, length and inner consumption; tests stay within comfortable inputs and rarely inspect errors",
     [f"{P}/core/parse_state.rs", f"{P}/core/parse_error.rs", f"{P}/core/parse_result.rs", f"{P}/internal/parsers_impl/taken_parsers_impl.rs"],
     [{"name": "ParseState::advance_by/slice_with_len, ParseError::input", "where": f"{P}/core"}],
     ["parser"], "comb", COMB_RULE, COMB_ASSUME, LN + "The obligations are those of every verified function: consumed length within the rest of the input, no arithmetic overflow, no slice index out of range, no unwrap of an absent value. " + LN2)
prop("C11", "Filtering and conversion accept exactly the values they should",
     "A filtered parser succeeds exactly when the inner parser succeeds with a value satisfying the predicate (not satisfying it, for the negated form), with the inner value and length; otherwise it fails. A fallible conversion succeeds exactly when the inner parser succeeds and the conversion of its value does, with the converted value and the inner consumed length; a failing conversion is a failure of the parser.",
     ["inputs", "programs"], "for all inner parsers, predicates and conversion functions, all inputs",
     "tests use one predicate and one accepted value each",
     [f"{P}/internal/parsers_impl/primitive_parsers_impl.rs", f"{P}/internal/parsers_impl/conversion_parsers_impl.rs", f"{P}/core/parser_filter.rs"],
     [{"name": "filter, with_filter_not, map_res, convert", "where": f"{P}/internal/parsers_impl"}],
     ["parser"], "comb", COMB_RULE, COMB_ASSUME, LN + LN2)

CRON_ASSUME = [
    "chrono's calendar: year/month/day/hour/minute/weekday of an instant describe it in its zone, are in their usual ranges, and adding a duration adds its length (instants stay inside chrono's range)",
    "intervals-rs: Interval::closed(a, b) has the limits a and b",
    "std iterator methods any/all/step_by over ranges and vectors (called under the aliases vx_any, ... that the extraction introduces)",
    "derived Clone is faithful; partial correctness: an expression no instant satisfies makes the search endless",
    "box patterns are desugared to nested matches on the dereferenced box, guards and fall-through kept",
]
CLN = "The functions are extracted verbatim from /repo on each run, given their contracts and accepted by Verus for all inputs, no bound. A seeded executable form (independent calendar, brute-force minute scan) runs against the real crate for failing inputs. "
K = "crond/src"
CRON_FILES = [f"{K}/cron_evaluator.rs", f"{K}/cron_environment.rs", f"{K}/cron_specification.rs", f"{K}/lib.rs", f"{K}/cron_expr.rs"]
prop("C12", "A cron expression holds at an instant exactly when every field matches it",
     "Evaluating a cron expression at an instant is true exactly when minute, hour, day of month, month and day of week of that instant, in its own time zone, each satisfy their field. A field is satisfied by any value, one value, a list with a satisfied member, a closed range, a range with a step counted from its first value, a step over the whole field counted from 0, or the last value of the field. Day of week is 1 for Sunday to 7 for Saturday, the last day of the month follows the calendar including leap years, and no expression and no instant makes the evaluation panic.",
     ["inputs", "programs"], "for all expressions (also malformed ones built by hand) and all instants in all time zones",
     "tests check a handful of instants against fixed expressions; leap years, month ends, weekday numbering and step phases are products over the calendar that samples do not reach",
     CRON_FILES, [{"name": "CronEvaluator::eval / visit", "where": f"{K}/cron_evaluator.rs"}, {"name": "get_days_from_month", "where": f"{K}/lib.rs"}],
     ["cron"], "cron", "a case is an expression (each field drawn from all field forms, boundary values preferred) evaluated at an instant (random, month ends, leap days, several offsets) and compared with an independent calendar; distinct = distinct (expression, instant)",
     CRON_ASSUME, CLN)
prop("C13", "A cron schedule yields exactly the matching minutes, in order, within its bounds",
     "Iterating a cron interval from its start yields, in increasing order and without repetition, exactly the instants at whole-minute steps from the start that satisfy the expression: each step yields the first satisfying instant at or after the previous position, none is skipped, and none that does not satisfy it is returned. With an upper limit nothing after the limit is returned, an instant equal to the limit is, and iteration ends exactly when no satisfying instant is left; without one it never ends. Instants are taken to the millisecond. A schedule starts at the given instant in the zone of that instant.",
     ["inputs", "histories"], "for all expressions, all start instants and zones, all upper limits (present or absent), and every number of steps",
     "an off-by-one at the start, at the limit or between two steps shows only for particular alignments of start, limit and expression; tests print or look at the first few instants of one schedule",
     [f"{K}/cron_interval.rs", f"{K}/cron_interval_iterator.rs", f"{K}/cron_schedule.rs", f"{K}/cron_specification.rs"],
     [{"name": "CronIntervalIterator::next / proceed_next / end_value", "where": f"{K}/cron_interval_iterator.rs"}, {"name": "CronInterval, CronSchedule", "where": f"{K}/cron_interval.rs"}],
     ["cron"], "cron", "a case is an expression, a start instant and an optional limit; up to 12 steps of the real iterator are compared with a brute-force scan of every minute; distinct = distinct (expression, start, limit)",
     CRON_ASSUME, CLN)
GRAM_ASSUME = [
    "the functions of the parser crate meet their contracts (C01 to C11 decide those on every run; `cache`, whose table is shared and mutable, and the string form of `Set` are bounded there)",
    "partial correctness: a grammar that does not return is outside (none of these recurses without consuming)",
    "macros of one rule are expanded by the extraction; a use that names no local becomes a function of its own, so that it can have a contract",
]
prop("C14", "Cron text means the schedule it says, and text that is not cron is rejected",
     "Parsing a cron text yields the expression whose five fields are, in this order, minute, hour, day of month, month and day of week, each exactly as written: numbers in the range of their field with or without a leading zero, day names SUN to SAT as 1 to 7, L as the last value, asterisk, lists, ranges and steps. Numbers outside the range of their field, missing, extra or misplaced fields, and trailing characters are rejected; nothing in the text is ignored. The whole text decides, and no text makes parsing panic.",
     ["inputs"], "for all texts",
     "the grammar has a product of field forms per field, with numeric boundaries in each; tests parse a few dozen texts, mostly with small numbers",
     [f"{K}/cron_parser.rs", f"{K}/cron_schedule.rs", f"{K}/cron_expr.rs"],
     [{"name": "instruction and the field grammars", "where": f"{K}/cron_parser.rs"}, {"name": "CronParser::parse", "where": f"{K}/cron_parser.rs"}],
     ["cron", "crongram"], "cron", "a case is a text (generated from the grammar with boundary numbers, mutated, or cut) read by the library and by an independent reader; distinct = distinct texts",
     GRAM_ASSUME + ["derived Clone of CronExpr, Box::from and str::chars are as documented; a vector and a box are their contents"],
     CLN + "The field grammars, the list, range and step parsers, the macros that make a field (expanded per use) and CronParser::parse are under contract: what each accepts at every place of every text, its value and where it ends.")

H = "hocon/src"
HM = "hocon/src/model"
HOCON_ASSUME = [
    "partial correctness: termination (a document whose values refer to themselves) and the panics the library documents by tests (an unresolvable mandatory reference, accessors given text that is not a path) are outside",
    "rust_decimal, chrono and std::time are as documented: a decimal is a number, its integer conversions are exact on whole numbers, a duration is its length; HashMap is a finite map whose traversal visits every entry once",
    "derived Clone is faithful; Rc is a value",
    "resolve and loading: the environment is a partial map from names to texts; a file that opens and reads gives its text, appended to the buffer; the factory's reader is the default one; std's slices, filter, first, last, cloned, or_else, split at dots are as documented; unwrap of nothing, panic! and looking up a text that is no path do not come back; a file's meaning is by definition what loading it gives; what the grammar reads of a text is named here (reads, readable) and proved in the unit hocongram",
    "the grammar: what rust_decimal reads from a decimal or scientific numeral, u16::from_str_radix of four hexadecimal digits and char::decode_utf16 are as documented; an ASCII byte string is a UTF-8 text of the same characters; a map's iterator folds each entry once and a map built from pairs has their last values; the contracts of the parser crate's combinators, which the unit parser proves on their bodies, are used",
    "the extraction drops trait headers of the merging traits (their methods become inherent), attributes, println!/Display and doc comments; self-contained immutable lets of a grammar function become functions of their own; for loops are written out over an iterator whose view is what is left to visit",
]
HLN = "The value model of the HOCON crate is extracted verbatim from /repo on each run, given its contracts and accepted by Verus (all values, all depths, no bound). "
HGN = "Every production of the HOCON grammar (blanks and comments, numbers, durations, texts with escapes, keys and paths, references, objects, arrays, enumerations, includes, the document) is extracted verbatim on each run and proved to read exactly what a reading function over the bytes says: where it ends and which value it gives, for all inputs. "
prop("C18", "HOCON numbers and durations keep their exact value",
     "A number read from a document equals the decimal number written: sign, fraction and exponent included (up to 28 significant digits). The integer accessors of a whole number answer that integer when it fits the asked type and None when it does not; they never wrap. A duration of n units is exactly n times the length of the unit for every unit and every spelling of it (ns, us, ms, s, m, h, d and the long names in singular and plural), both as std and as chrono duration; where the result does not fit, the conversion is an error rather than a panic or a wrapped value. A number or std/chrono duration converted into a configuration value and back is unchanged.",
     ["inputs"], "for all numbers, all units and spellings, all integer types",
     "the units, spellings, integer widths and range limits multiply into far more cases than tests list, and errors sit at the limits (i64/u64 boundaries times the unit)",
     [f"{HM}/config_number_value.rs", f"{HM}/config_duration_value.rs", f"{HM}/time_unit.rs", f"{H}/parsers.rs"],
     [{"name": "ConfigDurationValue::to_std_duration / to_duration", "where": f"{HM}/config_duration_value.rs"}, {"name": "ConfigNumberValue::to_*", "where": f"{HM}/config_number_value.rs"}, {"name": "number, duration", "where": f"{H}/parsers.rs"}],
     ["hocon", "hocongram"], "hocon", "a case is a duration (number at a boundary, unit, spelling, layout) or a number literal, read from a document or built directly, and its conversions compared with 128-bit integer arithmetic; distinct = distinct texts and values",
     HOCON_ASSUME, HLN + HGN + "What a decimal or scientific numeral gives (rust_decimal's own reader) is assumed; the bounded check compares it with 128-bit arithmetic.")
prop("C19", "HOCON merging and lookup see every value given, the latest on top",
     "A configuration value remembers what it was given: pushing a value puts it on top and leaves the earlier ones underneath in order; latest answers the last one and to_vec all of them, oldest first. Merging two objects yields the union of their keys, merging the values of keys both have; merging two arrays appends the second; merging in a value that itself has a history merges each of its values in order; in every other case the later value goes on top, and nothing given is lost. Combining puts a value's history on top of the other. get_value(path) answers the latest value at that dotted path, reached through the latest value at each step, and None exactly when has_path(path) is false. In a document, of keys given repeatedly the last wins, except that top-level objects are merged key by key.",
     ["inputs", "histories"], "for all values of any depth, all sequences of pushes, merges and combinations, and all dotted paths",
     "the outcome depends on the kinds and histories of both sides at every level; tests merge two small documents",
     [f"{HM}/config_value.rs", f"{HM}/config_object_value.rs", f"{HM}/config_array_value.rs", f"{HM}/config_value_link.rs", f"{H}/model.rs"],
     [{"name": "ConfigValue::merge_with / push / latest / to_vec / get_value / has_path", "where": f"{HM}/config_value.rs"}, {"name": "ConfigObjectValue::merge_with / combine", "where": f"{HM}/config_object_value.rs"}, {"name": "config (top level)", "where": f"{H}/parsers.rs"}],
     ["hocon", "hocongram"], "hocon", "a case is two random values with histories merged, combined or looked up, or a document with repeated keys, compared with an independent model; distinct = distinct operands",
     HOCON_ASSUME, HLN + HGN + "The expansion of dotted keys (ConfigValue::resolve) and the merging of a document's parts (ConfigFactory::resolve_stage0) are proved as well.")
prop("C20", "HOCON text is read as written, and a broken source is an error",
     "A document without substitutions and includes is read as it is written, whatever its layout: every key given is present with the value written for it - null, true, false, number, duration, quoted text with its escapes, unquoted text (one that does not itself begin with a literal or a number) up to the end of the line or a structural character, arrays, objects with or without outer braces, dotted keys as nested objects - with any run of blanks, newlines and comments between the tokens, = or : or nothing (before an object) as separator, commas or newlines between the entries of arrays and braces. The accessors answer the value exactly for its own kind and None for the other kinds. Parsing damaged text (still without substitutions and includes, and not nested so deeply that the stack runs out) answers a configuration or an error and does not panic. A file that is missing, unreadable or not valid UTF-8 is an error.",
     ["inputs"], "for all documents and layouts",
     "layouts and values combine without limit, and a defect (a swallowed character, a dropped sibling) shows only for particular neighbours; tests read a few tidy documents",
     [f"{H}/parsers.rs", f"{H}/model.rs", f"{HM}/config_value.rs", f"{HM}/config_object_value.rs"],
     [{"name": "hocon and the grammars", "where": f"{H}/parsers.rs"}, {"name": "ConfigFactory::parse_from_string / load_from_file", "where": f"{H}/model.rs"}, {"name": "resolve of dotted keys", "where": f"{HM}/config_value.rs"}, {"name": "accessors", "where": f"{HM}/config_value.rs"}],
     ["hocon", "hocongram"], "hocon", "a case is a random tree of values written as a document in a random layout, read back and compared, or such a document damaged by deletions, insertions and cuts, or a file; distinct = distinct documents",
     HOCON_ASSUME, HGN + "The accessors by kind, lookup, the expansion of dotted keys (ConfigValue::resolve), the stages of a document, parse_from_string and load_from_file (a missing or unreadable file and a text the grammar does not read are errors, of their kinds) are proved too. That parse_from_string's grammar is the one proved in hocongram is a naming of that unit's result (reads, readable), not an obligation. Bounded only (executable contract, thousands of documents per run): that nothing inside resolve panics, and that damaged text does not.")
prop("C22", "HOCON substitutions stand for the value they name",
     "In a document whose substitutions do not refer to themselves, ${path} has the value that the document gives to that path (its last value), wherever the definition stands, through any number of further substitutions and inside arrays and objects; if the document has none, the environment variable of that name. ${?path} likewise, and if neither exists it has the value given to its key just before it, or null if there is none. Values given before a substitution under the same key remain in its history. Values that are not substitutions are left as they are.",
     ["inputs", "environment"], "for all documents with acyclic substitutions and all environments",
     "the value depends on the order and position of definitions, chains of substitutions, histories and the environment together; tests resolve a handful of direct references",
     [f"{HM}/config_value.rs", f"{H}/model.rs", f"{H}/parsers.rs"],
     [{"name": "ConfigValue::resolve", "where": f"{HM}/config_value.rs"}, {"name": "ConfigFactory::resolve_stage0 / resolve_stage1", "where": f"{H}/model.rs"}, {"name": "ConfigValue::push (keeps what a substitution stands on)", "where": f"{HM}/config_value.rs"}],
     ["hocon", "hocongram"], "hocon", "a case is a random document with acyclic mandatory and optional substitutions to defined, undefined and environment names; every value is compared with a direct evaluation; distinct = distinct documents",
     HOCON_ASSUME, HLN + HGN + "ConfigValue::resolve is proved on the real code for every value, source and environment: what each kind of value becomes (references through lookup or the environment, what an optional one of nothing falls back to, enumerations, arrays, objects, histories), and the stages that resolve a document against itself. An executable contract compares whole documents with a direct evaluation (bounded).")

UR = "uri/src"
URI_ASSUME = [
    "std's IPv4 and IPv6 address types print and compare as documented (their printing is the normal form the rendering uses); HashMap is a finite map",
    "to_string runs the type's Display on an empty text; derived Clone is faithful",
    "std reads decimal and hexadecimal numbers from texts of digits as their value (out of range is an error), and the address of an IPv6 text of the forms with a compressed left part is what std's parse gives for that text; an ASCII byte string is a UTF-8 text of the same characters; an IPv4 address prints as its four decimal numbers",
    "u8 comparison is by value; the contracts of the parser crate's combinators, which the unit parser proves on their bodies, are used in the URI grammar; Set for arrays of bytes is membership",
    "the extraction drops trait headers (Display, From and Default become inherent functions), attributes and doc comments; immutable lets at the top of dec_octet, path_absolute and hier_part become functions; format! and write! with plain places are written out piece by piece; for loops are written out",
]
URG = "Every production of the URI grammar (scheme to authority, the nine IPv6 forms, paths, query, fragment, uri, Uri::parse) is extracted verbatim on each run and proved to read exactly what a reading function over the bytes says: where it ends and which value it has, for all inputs. "
URN = "The URI model (paths, queries, user information, authority, hierarchical part, the URI and all their renderings) is extracted verbatim from /repo on each run, given its contracts and accepted by Verus (all values, no bound). "
prop("C15", "The authority of a URI is split into user, host and port as RFC 3986 says",
     "In a URI with an authority, the host is classified as RFC 3986 says: an IPv6 literal in brackets with exactly the eight groups the text stands for (any of the nine forms with and without ::, and with an IPv4 tail), an IPvFuture literal, an IPv4 address exactly when the whole host is four decimal octets 0 to 255 without leading zeros, and otherwise a registered name with the text as written, which may be empty. The user information is what precedes the @, split at its first colon into a name and a password. The port is the decimal number after the last colon, absent when empty. A text whose authority is none of these (a group too long, too many or too few groups, a bad octet in brackets, characters outside the classes, an incomplete percent escape, a port over 65535) is rejected.",
     ["inputs"], "for all authority texts",
     "the nine IPv6 forms, octet limits and the overlap of addresses with names give far more boundary cases than the tests' lists",
     [f"{UR}/parsers/authority_parsers.rs", f"{UR}/parsers/host_parsers.rs", f"{UR}/parsers/ip_v4_address_parsers.rs", f"{UR}/parsers/ip_v6_address_parsers.rs", f"{UR}/parsers/port_parsers.rs", f"{UR}/parsers/user_info_parsers.rs", f"{UR}/models/authority.rs"],
     [{"name": "authority, user_info, port", "where": f"{UR}/parsers/authority_parsers.rs"}, {"name": "host, ip_literal, reg_name", "where": f"{UR}/parsers/host_parsers.rs"}, {"name": "ip_v4_address, ip_v6_address", "where": f"{UR}/parsers/ip_v6_address_parsers.rs"}, {"name": "Authority, UserInfo, HostName", "where": f"{UR}/models/authority.rs"}],
     ["uri", "urigram"], "uri", "a case is an authority text (every IPv6 form, octets and ports at their limits, names that start like addresses, damaged texts) read by the library and by an independent reading of RFC 3986; distinct = distinct texts",
     URI_ASSUME, URG + "The reading functions (octet_at, v6_at, host_is, auth_is, port_at) are the statement written out; an executable contract compares the real library with an independent reading of RFC 3986 (bounded).")
prop("C16", "Uri::parse accepts exactly RFC 3986 texts, and printing gives the text back",
     "Parsing a whole text as a URI succeeds exactly when the text is an optional scheme, a colon, and the hierarchical part, query and fragment of RFC 3986 (an authority with a path that is empty or starts with a slash; otherwise a path that does not start with two slashes), each character in its class and each percent escape complete; nothing of the text is ignored. The parsed scheme, authority, path segments, query and fragment are the pieces of the text, unchanged. Printing the URI gives the same text back, except that the port is printed as a number, an empty port is left out and an IPv6 address is printed in its normal form; parsing the printed text gives an equal URI.",
     ["inputs"], "for all texts, accepted or not",
     "acceptance depends on every character class in every position and on how the pieces meet; tests parse a few ordinary URIs and almost no bad ones",
     [f"{UR}/parsers/uri_parsers.rs", f"{UR}/parsers/hier_part_parsers.rs", f"{UR}/parsers/path_parsers.rs", f"{UR}/parsers/query_parsers.rs", f"{UR}/parsers/basic_parsers.rs", f"{UR}/parsers/scheme_parsers.rs", f"{UR}/parsers/fragment_parsers.rs", f"{UR}/models/uri.rs"],
     [{"name": "uri, hier_part, paths, query, fragment, scheme", "where": f"{UR}/parsers"}, {"name": "character classes", "where": f"{UR}/parsers/basic_parsers.rs"}, {"name": "Uri and the Display of every model", "where": f"{UR}/models/uri.rs"}],
     ["uri", "urigram"], "uri", "a case is a text (generated from the RFC grammar, damaged, or cut) read by the library and by an independent reading of RFC 3986, printed and read again; distinct = distinct texts",
     URI_ASSUME, URG + "The printing of every model is proved too, and a lemma over these contracts (theorem_printed, theorem_same_text) gives the printed text from the text that was read. Bounded only: reading the printed text again when printing changed the port or an IPv6 address.")
prop("C17", "The URI models keep what they are given, in order",
     "A path keeps its kind and its parts in order; adding parts appends them (a path of the empty kind stays empty), converting it to rootless or absolute keeps the parts, and it is printed as its parts one after the other. A query keeps its pairs in order, including repeated keys and keys without a value; adding appends, adding an absent value changes nothing, it is printed as key=value pairs joined by &, params groups the values of each key in order (a key without values has an empty list) and get_param answers that list, None for an absent key. A query text is split into pairs at &, and each pair at its first =. User information, authority, hierarchical part and URI answer the pieces they were made of and print them in the order of the RFC.",
     ["inputs", "histories"], "for all parts, pairs and pieces, and all sequences of additions",
     "order and grouping matter only with repeated keys, absent values and several additions; tests hold one or two elements",
     [f"{UR}/models/path.rs", f"{UR}/models/query.rs", f"{UR}/models/user_info.rs", f"{UR}/models/authority.rs", f"{UR}/models/hier_part.rs", f"{UR}/models/uri.rs", f"{UR}/parsers/query_parsers.rs"],
     [{"name": "Path::add_part / add_parts / parts", "where": f"{UR}/models/path.rs"}, {"name": "Query::params / get_param / as_string", "where": f"{UR}/models/query.rs"}, {"name": "query", "where": f"{UR}/parsers/query_parsers.rs"}, {"name": "Uri accessors and Display", "where": f"{UR}/models/uri.rs"}],
     ["uri", "urigram"], "uri", "a case is a path or query with random parts and additions, a URI assembled from random pieces, or a query text, compared with lists; distinct = distinct operations",
     URI_ASSUME, URN + "The query grammar is proved to split at & and then at the first =.")

T = "toys/src"
TOYS_ASSUME = [
    "names that begin with a word of the language (if, else, while, for, in, to, fn, global, println, true, false) are outside, as are programs that are not well formed (the program parser reads the definitions it can and leaves the rest)",
    "HashMap is a finite map; derived Clone is faithful; Rc is a value",
]
prop("C21", "Toys source text is read as the program it denotes",
     "A well-formed Toys program (global definitions and functions; println, while, if/else, for, assignment, expression and block statements; integer, string, boolean and array literals, variables, calls, labelled calls, parentheses and binary operators) is read as the tree it denotes, with any blanks between its tokens. Operators of one level associate to the left, and the levels are, from the tightest: * and /; %; + and -; comparisons, && and ||. Escapes in strings, including \\u with surrogate pairs, stand for their characters; an integer literal is its decimal value; an else belongs to the if just before it; for (i in a to b) s is the block that sets i to a and then, while i < b, runs s and adds one to i.",
     ["inputs"], "for all well-formed programs and all placements of blanks between tokens",
     "precedence, associativity, keyword/name overlap and blanks interact at every position of the grammar; the tests parse one small text per construct",
     [f"{T}/parsers.rs", f"{T}/expr.rs"],
     [{"name": "program, line, if/while/for, assignment", "where": f"{T}/parsers.rs"}, {"name": "multitive, moditive, additive, comparative", "where": f"{T}/parsers.rs"}, {"name": "string_literal, integer, labelled_call", "where": f"{T}/parsers.rs"}],
     ["toys", "toysgram"], "toys", "a case is a random tree of the grammar printed with random blanks and escapes and read back, or one of the operator triples; distinct = distinct texts",
     TOYS_ASSUME + [
         "the grammar of toys/src/parsers.rs is recursive through lazy parsers: every recursive use is taken with the contract of the function it names (the rule of partial correctness for recursion), and the reading functions of expressions and lines are the solutions of two recursion equations (axiom_expression, axiom_line) whose recursive uses all lie behind a consumed character",
         "the two regular expressions (names and numerals) mean what axiom_name_pattern and axiom_number_pattern say; std's decode_utf16, u16::from_str_radix, parse::<i64>, String::from_iter, concat and char equality are assumed; function items passed as values are wrapped (vx_fn0, vx_fn2) and assumed to be that function",
     ],
     "Every production of toys/src/parsers.rs is extracted verbatim, and Verus proves that its outcome equals a reading function of the text and the position (all texts, no bound); the constructors Expr::of_* and the combinators are under contract as well. An executable contract prints random trees and reads them back with the real parser (bounded).")
prop("C23", "Toys programs evaluate to the value their definition gives",
     "Running a program evaluates its globals in order in the outermost frame and then the body of main. Integers are computed with the usual arithmetic and comparisons, booleans with and/or; a variable has the value of its nearest binding, and an assignment changes the nearest binding of the name or else adds one to the current frame; a call evaluates its arguments in order, binds them to the parameters (a labelled call to the named ones) in a new frame, runs the body, answers its value and drops that frame only. A block has the value of its last statement; an if runs exactly the branch its condition selects (true if there is none); a while runs its body as long as the condition holds and is true; an array has the values of its elements in order; println prints the value and has it. Names bound at the end in the outermost frame can be read.",
     ["programs", "histories"], "for all programs whose evaluation is defined (well typed, no overflow or division by zero, no empty block evaluated, every name bound)",
     "the value depends on the whole history of frames, assignments and calls; the tests evaluate two fixed programs and look at no result",
     [f"{T}/interpreter.rs", f"{T}/environment.rs", f"{T}/values.rs"],
     [{"name": "Interpreter::interpret / call_main", "where": f"{T}/interpreter.rs"}, {"name": "Environment::find_binding / assign / leave", "where": f"{T}/environment.rs"}, {"name": "Value", "where": f"{T}/values.rs"}],
     ["toys"], "toys", "a case is a random typed program (functions, recursion, loops, shadowing, globals) whose value, output and outermost names are compared with an independent evaluator; distinct = distinct programs",
     TOYS_ASSUME + ["Rc is a value and Clone is faithful (values are immutable once built); HashMap is a finite map from texts; what println writes is compared by the executable contract, not by the proof",
      "partial correctness: the proof says what a terminating evaluation yields; evaluations that overflow, divide by zero or meet an unbound name are outside the precondition"],
     "Interpreter::interpret and call_main are proved against a big-step semantics (val, program) over frames; every loop has an invariant, every recursive call is checked against the contract. The executable contract runs the real interpreter against an independent evaluator.")

TECH = "contract-based deductive verification of the extracted real code with Verus; bounded executable contracts for failing inputs and for functions out of reach"
