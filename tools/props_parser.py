IMPL = "parser/src/internal/parsers_impl/"
def P(id, title, statement, files, mech, why, text, technique="runtime monitoring: online node monitor and differential oracle (reference semantics) over generated parsers and inputs", over=("inputs", "programs"), note=None, observe=None):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=mech, observe_at=observe or ["Parser::parse / Parser::run results: value, consumed length, failure status", "every sub-parser's run boundary (wrapper parsers built by the harness)"], hook_needed=None),
        technique=technique,
        level_note=note or "Seeded random exploration of the real library judged by an independent reference interpreter; no violation on what was executed, not a proof. Trusts the reference semantics in harness/parser/src/refsem.rs and that user callbacks are pure.",
    )
def M(name, where): return dict(name=name, where=where)
T = "every composition of the public parsers up to the generated size, every input (chars or bytes)"
PROPS = [
 P("P01", "Sequencing runs parts in order and accounts for every element consumed",
   "A sequence of parsers (pairing, keep-left, keep-right, surround, bind, map, collect, discard) succeeds exactly when its parts succeed one after another, each starting where the previous one stopped. It consumes the sum of what its parts consume, and its value is the documented combination of their values: collect returns exactly the consumed slice, surround the middle value, keep-left/right the chosen side. If a part fails, the sequence fails with that part's error; bind additionally marks the failure committed once its first part has consumed something, while the other sequencing forms leave the part's committed/uncommitted status as it is.",
   [IMPL + "operator_parsers_impl.rs", IMPL + "skip_parser_impl.rs", "parser/src/internal/parsers_impl.rs", IMPL + "collect_parsers_impl.rs", IMPL + "discard_parsers_impl.rs", "parser/src/internal/parser_impl/add_impl.rs", "parser/src/internal/parser_impl/mul_parser_impl.rs", "parser/src/internal/parser_impl/sub_parser_impl.rs"],
   [M("advance_by / advance_success length arithmetic", "parser/src/core/parse_state.rs, parse_result.rs"), M("and_then, flat_map, skip_left, skip_right, surround", IMPL + "operator_parsers_impl.rs, skip_parser_impl.rs")],
   "tests use a handful of fixed two-part parsers on inputs that match; the claim is over all nestings, inputs and failure points", T),
 P("P02", "Choice backtracks only on uncommitted failure; attempt and opt as documented",
   "Ordered choice tries its right side, from the position where the choice began, exactly when the left side failed without being committed; a committed failure of the left side is the result of the choice. attempt turns any failure of its parser into an uncommitted one and changes nothing else; opt never fails: it gives None and consumes nothing whenever its parser fails. Literal (sequence) matching commits exactly when a mismatch is found after its first element.",
   [IMPL + "operator_parsers_impl.rs", "parser/src/internal/parser_impl/bitor_impl.rs", "parser/src/core/committed_status.rs", "parser/src/core/parse_result.rs", IMPL + "elements_parsers_impl.rs"],
   [M("CommittedStatus carried by ParseResult", "parser/src/core/parse_result.rs"), M("or / attempt / opt", IMPL + "operator_parsers_impl.rs")],
   "tests check or on two single-element alternatives; commitment arises from nesting depth and from where in the input the mismatch sits", T),
 P("P03", "Look-ahead (peek, not, exists) never consumes input",
   "peek gives its parser's outcome but consumes nothing on success; not succeeds exactly when its parser fails and fails uncommitted otherwise; exists always succeeds and reports whether its parser would succeed. After any of them the next parser starts at the same position as the look-ahead did.",
   [IMPL + "peek_parsers_impl.rs", IMPL + "operator_parsers_impl.rs", "parser/src/internal/parser_impl/not_impl.rs"],
   [M("peek / not / exists return length 0", IMPL)], "tests look at one look-ahead in isolation, never at what the following parser sees", T),
 P("P04", "Repetition takes as many items as its bounds allow, in order, and terminates",
   "A repetition with lower bound n and upper bound m (from any range form, exact count, or none) collects items in input order, each starting where the previous one ended, stops at the first item that fails or when m items were taken, and succeeds exactly when at least n were taken; otherwise it fails uncommitted. It consumes exactly the collected items (none when m is 0), and an unbounded repetition whose item succeeds without consuming anything still terminates.",
   [IMPL + "repeat_parsers_impl.rs", "parser/src/utils/range.rs", "parser/src/internal/parser_impl/repeat_parser_impl.rs"],
   [M("loop over method with Bound checks", IMPL + "repeat_parsers_impl.rs"), M("RangeArgument for every range type", "parser/src/utils/range.rs")],
   "tests fix one range and one matching input each; the bounds interact with every item count, failing item and empty item", T),
 P("P05", "Separated repetition alternates item and separator within its bounds",
   "A separated repetition parses item (separator item)* within its bounds: a separator is tried only between items and only while the upper bound is not reached, and the result lists the items only. It stops at the first failing separator or item; a separator that matched before a failing item stays consumed (a trailing separator is taken). It succeeds exactly when at least the lower bound of items was collected, whatever the separator consumes.",
   [IMPL + "repeat_parsers_impl.rs", "parser/src/internal/parser_impl/repeat_parser_impl.rs"],
   [M("repeat_sep", IMPL + "repeat_parsers_impl.rs")],
   "tests cover one separator and full matches; trailing separators, empty separators and bound/separator interactions are not sampled", T),
 P("P06", "Operator chains fold to the declared side and keep operand order",
   "A left (right) operator chain over operands separated by an operator parser gives the left- (right-) nested application of the parsed operators to the operands in input order, and consumes exactly that text. If an operator consumed input but no operand follows, the chain fails committed; an operator that does not match ends the chain without consuming. The '0' forms give their default when the first operand fails uncommitted, and the 'rest' forms start from the given operand.",
   [IMPL + "operator_parsers_impl.rs", "parser/src/extension/parser/operator_parser.rs"],
   [M("chain_left1/chain_right1/rest_left1/rest_right1", IMPL + "operator_parsers_impl.rs")],
   "tests use an addition-like operator on two or three operands, which cannot tell the nesting apart", T),
 P("P07", "Element parsers accept exactly their class, for every byte and character",
   "Each element class parser and each element predicate accepts exactly its documented ASCII set (the octal class being 0-8) for every byte and for every Unicode scalar value, consuming exactly one element; set, negated set, closed range and half-open range parsers accept exactly the members. By-value and by-reference forms agree; on rejection or empty input they fail uncommitted and consume nothing.",
   ["parser/src/core/element.rs", IMPL + "element_parsers_impl.rs", "parser/src/extension/parsers/element_parsers.rs", "parser/src/utils/set.rs"],
   [M("Element impls for u8 and char", "parser/src/core/element.rs"), M("Set impls", "parser/src/utils/set.rs")],
   "tests try one or two members per class and no non-ASCII characters", "every byte, every Unicode scalar value, every pair of byte bounds, random sets",
   technique="runtime monitoring: exhaustive drive of every element through class parsers and predicates against set definitions, plus differential oracle on compositions", over=("inputs",)),
 P("P08", "Literals and regexes match at the current position and consume exactly the match",
   "A literal (element sequence, string tag, case-insensitive tag) succeeds exactly when the remaining input starts with it (ASCII case aside for the latter) and consumes exactly its length. A regex matches only at the current position, for every alternative of the pattern and also with non-ASCII text before or inside the match, returns the matched text and consumes exactly its number of characters; when it does not match there it fails without consuming.",
   [IMPL + "elements_parsers_impl.rs", "parser/src/extension/parsers/elements_parsers.rs"],
   [M("anchoring of the pattern and char counting", IMPL + "elements_parsers_impl.rs"), M("index comparison loop in seq/tag/tag_no_case", IMPL + "elements_parsers_impl.rs")],
   "tests match ASCII literals at the start of the input", T),
 P("P09", "take, skip, take_while and take_till cut the input where they say",
   "take n and skip n consume exactly n elements or fail; take_while forms return the first maximal run of matching elements in the remaining input (elements before it are consumed with it) and enforce their length bounds; take_till returns everything up to and including the first matching element (take_till0: the whole rest when there is none, take_till1: failure). The slice returned is the corresponding part of the input at the current position, wherever in the input the parser runs.",
   [IMPL + "taken_parsers_impl.rs", IMPL + "skip_parser_impl.rs"],
   [M("index scans and bound checks", IMPL + "taken_parsers_impl.rs")],
   "tests run each of these once at offset 0 on one text", T),
 P("P10", "Parsers are pure: caching, laziness, logging, naming and reuse change nothing",
   "Wrapping a parser in cache, lazy or a logging level never changes value, consumption, commitment or error, and naming changes nothing but the error message. The same parser object (or a clone of it) gives the same outcome every time for the same input and position, whatever other inputs, sub-slices or positions it was run on in between, including when it is re-entered recursively.",
   [IMPL + "cache_parsers_impl.rs", IMPL + "lazy_parsers_impl.rs", IMPL + "logging_parsers_impl.rs", "parser/src/core/parser.rs"],
   [M("memo table keyed by input and position", IMPL + "cache_parsers_impl.rs"), M("Rc-shared parse function", "parser/src/core/parser.rs")],
   "tests run each parser once; a stale memo only shows over a history of inputs and positions", "every history of (input, position) runs through one parser object up to six runs, every composition",
   over=("histories", "inputs", "programs")),
 P("P11", "Every failure carries a usable report: kind, name, position, excerpt, message",
   "On failure the error has the documented kind (mismatch, incomplete, conversion, custom), a name given to the parser appears in the message, the reported position is that of the failure to within one element, and the excerpt that a mismatch or conversion failure offers, named or not, is a part of the input. Displaying or excerpting any error value, however built or nested, never panics and shows every message and position in it.",
   ["parser/src/core/parse_error.rs", IMPL + "logging_parsers_impl.rs"],
   [M("ParseError::input clamping, Display", "parser/src/core/parse_error.rs"), M("name wrapping", IMPL + "logging_parsers_impl.rs")],
   "tests compare almost no error contents and never ask for the excerpt of a failure away from offset 0", T + "; every error tree up to depth 4"),
 P("P12", "Filters and conversions decide success by their function alone",
   "A filtered parser succeeds exactly when its parser succeeds and the predicate holds (does not hold, for the negated form) on the value, with the same value and consumption; a converting parser succeeds exactly when its parser and the conversion succeed, with the converted value. A rejected or unconvertible value is an uncommitted failure, so an alternative is tried from the original position; a failure of the inner parser is passed on unchanged.",
   ["parser/src/internal/parsers_impl.rs", IMPL + "conversion_parsers_impl.rs", "parser/src/core/parser_filter.rs"],
   [M("filter / map_res", "parser/src/internal/parsers_impl.rs, " + IMPL + "conversion_parsers_impl.rs")],
   "tests filter a single element", T),
 P("P13", "Any composition terminates within the input, without panics",
   "For any parser built from the public combinators whose operator chains consume something per round, and any input and starting position, parsing terminates without panicking, never consumes more than what remains, and every sub-parser is run at a position inside the input on exactly the remaining input. The outcome is the one its documented meaning gives.",
   ["parser/src/core/parse_state.rs", "parser/src/internal/parsers_impl.rs", IMPL],
   [M("ParseState slicing", "parser/src/core/parse_state.rs"), M("zero-progress cut-off in repetition", IMPL + "repeat_parsers_impl.rs")],
   "tests never compose more than two or three combinators or run them on mismatching input", T + ", nesting up to 6"),
 P("P14", "Offsets are absolute and shift with the starting position",
   "Running a parser from a state at offset k of an input gives the same value and consumption as running it at the start of the remaining input, except that reported offsets are those of the whole input: the next offset is the absolute end position and the last offset is that minus one (0 at the very start).",
   [IMPL + "offset_parsers_impl.rs", "parser/src/core/parse_state.rs"],
   [M("current_offset / last_offset", "parser/src/core/parse_state.rs")],
   "tests only start at offset 0", "every composition, input and starting offset"),
 P("P15", "Recursive grammars (JSON, arithmetic) decide exactly their language",
   "A JSON grammar over characters or bytes and an arithmetic grammar with left- and right-associative levels, written with the public combinators, accept exactly the documents of their language (including deep nesting and long lists; a trailing comma is accepted because separated repetition takes it) and return the value or tree an independent parser gives. Caching sub-parsers and parsing again with the same parser change nothing, and the character and byte versions agree.",
   ["parser/src/lib.rs", IMPL, "parser/examples/json_char.rs", "parser/examples/calculator.rs"],
   [M("combinator composition, lazy recursion", "parser/src/lib.rs")],
   "the examples parse one document each; recursion depth, backtracking and escapes interact only on larger inputs", "every document up to the generated size, valid or mutated",
   technique="runtime monitoring: differential oracle (hand-written recursive-descent parsers) over generated and mutated documents", over=("inputs",)),
 P("P16", "Results, statuses, states and entry points obey their algebra and agree",
   "The result operations (map, bind, error map, add/remove commitment, advance, accessors, conversion to a standard result) do exactly what they say on successes and failures and nothing on the other variant; combining two statuses is committed exactly when one is. parse, parse-as-result, running from the initial state and the static parser facade (including its map, bind, filter and constant parsers) agree on every parser and input.",
   ["parser/src/core/parse_result.rs", "parser/src/core/committed_status.rs", "parser/src/core/parser_runner.rs", "parser/src/core/parsers.rs"],
   [M("ParseResult methods", "parser/src/core/parse_result.rs"), M("ParserParsers", "parser/src/core/parsers.rs")],
   "the existing tests touch only a few of these methods on one variant", "all statuses, lengths and variants; every composition and input for the entry points"),
]
