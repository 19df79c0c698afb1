S = "hocon/src/"
MO = S + "model/"
PA = S + "parsers.rs"
def M(name, where): return dict(name=name, where=where)
def P(id, title, statement, files, mech, why, text, over, technique, note, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=mech, observe_at=observe, hook_needed=None), technique=technique, level_note=note)
N = "Seeded exploration of the real crate judged by the independent document model in harness/hocon/src/model.rs; no violation on what was executed, not a proof."
def T(what): return "runtime monitoring: offline checker of loaded configurations against an independent document model, over " + what
D = "generated documents with randomly varied layout"
LOOK = ["ConfigFactory::parse_from_string", "Config::get_value / has_path / to_config_value"]
PROPS = [
 P("H01", "A configuration text loads into exactly the tree it writes down",
   "A well-formed document (with or without braces at the root, `=` or `:` or a directly following object or array, dotted or quoted keys, entries separated by commas or line ends, comments and white space between any two tokens, nothing at all) loads into exactly the tree it writes: no entry lost, added, reordered or misplaced. A dotted key is the same as the nested objects it abbreviates, and a quoted key is one key, whatever it holds. Looking up a path of plain keys gives the value there and nothing for every path that is absent, and the presence test agrees with the lookup.",
   [PA, S + "model.rs", MO + "config_value.rs", MO + "config_object_value.rs"], [M("config, property, object, key", PA), M("get_value, has_path", MO + "config_value.rs")],
   "tests load a handful of fixed documents with one layout each", "every well-formed document and lookup path", ["inputs", "configurations"], T(D), N, LOOK),
 P("H02", "Later definitions replace earlier ones, and objects merge, at every level",
   "When a path is defined more than once, the latest definition counts, except that an object defined after an object merges into it entry by entry by the same rule, at every level, whether the path is written nested or dotted. Everything else in the document keeps its value.",
   [PA, S + "model.rs", MO + "config_value.rs", MO + "config_object_value.rs", MO + "config_value_link.rs"], [M("merge_with", MO + "config_value.rs"), M("fold over properties", PA), M("resolve_stage0", S + "model.rs")],
   "tests define one scalar twice; histories mixing values, objects, arrays and dotted keys are combinatorial", "every sequence of definitions of overlapping paths", ["histories", "inputs"], T("random definition histories over few keys"), N, LOOK),
 P("H03", "Numbers are read with their exact value",
   "A number text (sign, integer, fraction, exponent) loads as a number of exactly that decimal value, within the decimal type's 28 digits, wherever a value may stand. Converting it to an integer type gives its integer part when the type can hold it and nothing otherwise; converting to a floating type gives the nearest value to about 1e-6. A number made from a primitive keeps the value of that primitive.",
   [PA, MO + "config_number_value.rs"], [M("number, number_value", PA), M("conversions", MO + "config_number_value.rs")],
   "tests use three small positive numbers", "every number text and primitive value", ["inputs"], "runtime monitoring: oracle comparing loaded numbers and conversions with exact integer arithmetic on the digits", N, ["ConfigValue::as_number, ConfigNumberValue conversions and Display"]),
 P("H04", "Durations are read and converted exactly, or reported as out of range",
   "A number followed by a unit name (short or written out, from nanoseconds to days) loads as a duration, and the name must end the word it stands in. Its length as a standard or calendar duration is the exact product in whole nanoseconds; what the target type cannot hold (negative for the standard one, too long) is reported as absent or an error, never a wrong value or a stop. A duration made from a standard or calendar duration converts back to the same one.",
   [PA, MO + "config_duration_value.rs", MO + "time_unit.rs", MO + "config_value.rs"], [M("duration", PA), M("to_std_duration, to_duration", MO + "config_duration_value.rs")],
   "three tests convert one whole number of seconds or days each", "every number, unit name and duration", ["inputs"], "runtime monitoring: oracle recomputing each duration in 128-bit nanoseconds from the digits", N, ["ConfigValue::as_duration / as_std_duration", "ConfigDurationValue::to_duration / to_std_duration / From"]),
 P("H05", "Substitutions take the value they point to, or are reported or left out",
   "A substitution gets the final value of the path it names, wherever in the document that is defined, or else of the environment variable of that name. An optional one that finds nothing leaves the earlier definition of its entry in place, and otherwise disappears with its entry or array element; a required one that finds nothing makes loading fail. Substitutions that lead back to themselves see the definition before them, and loading always ends.",
   [S + "model.rs", MO + "config_value.rs", PA], [M("resolve_in, find, unresolved", MO + "config_value.rs"), M("resolve_stage1", S + "model.rs"), M("reference", PA)],
   "tests cover four fixed documents; chains, order of definition, look-back, cycles, and optional elements inside arrays are untried", "every document with substitutions and every environment", ["inputs", "histories"], T("documents with planted substitutions, layered definitions and cycles"), N, LOOK),
 P("H06", "Strings and literals are read exactly",
   "A quoted text (double or single quotes, with escapes) loads as exactly the text it stands for, whatever characters it holds, and wherever a value may stand. An unquoted word loads as its own text up to the delimiter, comment or trailing blank that ends it. null, true and false are literals only as whole words; a word that merely starts like a literal, number or duration is a text.",
   [PA, MO + "config_value.rs"], [M("string, simple_config_value", PA)],
   "tests read short lower-case strings; delimiters, escapes, look-alikes and context are untried", "every text, quoting and context", ["inputs"], T("hostile texts under every quoting in seven contexts"), N, ["ConfigValue::as_string / as_bool / is_null"]),
 P("H07", "Arrays keep their elements, kinds and order",
   "An array loads with exactly its elements in their order, each read by the same rules as any other value, at any nesting and length, with white space, comments and a trailing comma allowed between elements. Nothing is dropped, repeated, merged or reordered.",
   [PA, MO + "config_array_value.rs"], [M("array", PA)],
   "one test reads one flat array of three numbers", "every array", ["inputs"], T("nested, mixed and long arrays"), N, LOOK),
 P("H08", "A displayed configuration reads back as the same configuration",
   "The text a loaded configuration displays as is itself a document that loads into the same tree. This holds for every key and text, including those that need quoting or escaping, and for every kind of value.",
   [MO + "config_value.rs", MO + "config_object_value.rs", MO + "config_array_value.rs", MO + "config_duration_value.rs", MO + "config_number_value.rs", MO + "time_unit.rs"], [M("Display implementations", MO)],
   "no test reads displayed text back", "every loadable document", ["inputs"], "runtime monitoring: display round-trip judged by the document model", N, ["Config Display", "ConfigFactory::parse_from_string of the displayed text"]),
 P("H09", "Reading any text ends with a configuration or an error, never a stop",
   "Reading any text whatever ends, without a panic, in a configuration or in an error with a message. Everything an accepted configuration offers (every accessor, conversion, comparison, display and lookup of a well-formed path) can then be used without a panic.",
   [PA, S + "model.rs", MO + "config_value.rs", MO + "config_duration_value.rs", MO + "config_number_value.rs"], [M("hocon", PA), M("parse_from_string", S + "model.rs")],
   "tests read well-formed documents only", "every text", ["inputs"], "runtime monitoring: panic and termination monitors (guarded calls, per-case watchdog, CPU limit) under soup, mutation and stress workloads", N, ["parse_from_string result", "every accessor of the loaded values"]),
 P("H10", "Includes stand for the contents of the files they name",
   "Loading a file gives exactly what reading its contents gives, and a file that is missing or unreadable is reported as an error. A document of includes means the documents of those files merged in order as later definitions; a missing included file counts as empty, and an included file that is unreadable or malformed makes loading fail. Files that include each other in a circle make loading fail instead of never ending.",
   [S + "model.rs", MO + "config_include_value.rs", MO + "config_value.rs", PA], [M("load_include, load_from_file", S + "model.rs"), M("include_config_value", PA)],
   "no test includes or loads an existing file", "every set of files", ["configurations", "fault_sequences", "inputs"], "runtime monitoring: scratch-file workloads with missing, unreadable, malformed and circular files, judged by the document model", N, ["ConfigFactory::load_from_file", "Config lookups"]),
 P("H11", "A value's definition history keeps every definition in order",
   "Adding a definition to a value makes it the latest and keeps all earlier ones, in order, as its history; combining two values, or two objects entry by entry, appends the history of the second, and combining arrays joins their elements. Merging a definition replaces the latest one, except that two objects merge entry by entry; merging a value with several definitions merges them one after the other. None of this changes the added value or an earlier copy. The definition before the latest is reported as such.",
   [MO + "config_value.rs", MO + "config_value_link.rs", MO + "config_object_value.rs", MO + "config_array_value.rs"], [M("push, combine, merge_with, to_vec, latest, prev_latest", MO + "config_value.rs")],
   "one test pushes two values and one prints a combination without checking it", "every sequence of operations", ["histories"], "runtime monitoring: lock-step reference list over random operation histories", N, ["ConfigValue::to_vec / latest / prev_latest", "ConfigObjectValue::as_map", "ConfigArrayValue::as_array"]),
 P("H12", "A malformed configuration is rejected as a whole",
   "A text with an unbalanced or mismatched bracket or brace, an unterminated quoted text or substitution, an unknown or cut-off escape, a missing key or value, an empty path element, a doubled or leading comma, two values side by side, or anything left over after its closing brace is rejected with an error, wherever in the document the fault stands. It never loads as part of what it says.",
   [PA, S + "model.rs"], [M("hocon, config, property, array, object, string, reference, keys", PA), M("parse_from_string", S + "model.rs")],
   "tests read well-formed documents only; the fault may stand anywhere in any document", "every document and every place a fault can stand", ["inputs"], "runtime monitoring: fault planting in generated documents (the rejection oracle follows from the planted fault)", N, ["ConfigFactory::parse_from_string"]),
]
