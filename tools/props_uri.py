S = "uri/src/"
def M(name, where): return dict(name=name, where=where)
def P(id, title, statement, files, mech, why, text, over, technique, note, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=mech, observe_at=observe, hook_needed=None), technique=technique, level_note=note)
T = "runtime monitoring: offline checker of parse results against an independent delimiter-splitting RFC 3986 reader over generated, mutated and enumerated texts"
N = "Seeded exploration plus small exhaustive enumerations of the real crate, judged by harness/uri/src/oracle.rs; no violation on what was executed, not a proof."
PP = [S + "parsers/" + f for f in ["uri_parsers.rs", "hier_part_parsers.rs", "authority_parsers.rs", "user_info_parsers.rs", "host_parsers.rs", "port_parsers.rs", "path_parsers.rs", "query_parsers.rs", "fragment_parsers.rs", "scheme_parsers.rs", "basic_parsers.rs"]]
PROPS = [
 P("U01", "Exactly the RFC 3986 URIs are accepted, and only as a whole",
   "A text is accepted exactly when all of it is a URI by the RFC 3986 grammar (scheme ':' hier-part, optional '?query', optional '#fragment'), with a port, when digits are given, of at most 65535. A missing scheme, a character or malformed percent-triplet not allowed where it stands, a bad port or host, or anything left over after the URI is rejected with an error.",
   PP + [S + "models/uri.rs"], [M("uri() - end()", S + "models/uri.rs"), M("component grammars", S + "parsers/")],
   "the tests only parse generated valid texts; rejection and the empty, boundary and look-alike components are never tried", "every text", ["inputs"], T, N, ["Uri::parse result"]),
 P("U02", "Parsing splits a URI into its components exactly",
   "For an accepted URI, the scheme, user name, password (everything after the first colon of the user info, possibly empty), host, port (none when empty), path and its segments (each with its leading slash), query parameters in order (a parameter splits at its first '='; no '=' means no value) and fragment are exactly the pieces of the text between their delimiters, percent-triplets left as written. Absent components are reported absent, empty ones as empty; a URI is absolute exactly when it has no fragment.",
   PP + [S + "models/uri.rs", S + "models/authority.rs", S + "models/user_info.rs", S + "models/path.rs", S + "models/query.rs"], [M("component constructors", S + "parsers/"), M("accessors", S + "models/uri.rs")],
   "the component test checks one URI; the generator tests only compare the displayed whole", "every accepted URI", ["inputs"], T, N, ["Uri accessors", "Authority / UserInfo / Path / Query accessors"]),
 P("U03", "A URI displays as text that parses back to an equal URI",
   "Displaying an accepted URI gives the text it was parsed from, except that the port is written in plain decimal (dropped when empty) and an IPv6 host in its canonical form; parsing the displayed text gives an equal URI with an equal hash, and displaying that gives the same text again. A URI built from the same components displays the same, and two URIs are equal exactly when they display the same.",
   [S + "models/uri.rs", S + "models/authority.rs", S + "models/hier_part.rs", S + "models/host_name.rs", S + "models/path.rs", S + "models/query.rs", S + "models/scheme.rs", S + "models/user_info.rs"], [M("Display implementations", S + "models/"), M("derived equality and hash", S + "models/")],
   "tests round-trip values of a generator that never produces empty, absent or repeated parts", "every accepted URI and every pair", ["inputs"], "runtime monitoring: round-trip and equality oracle over generated URIs", N, ["Uri Display, PartialEq, Hash", "Uri::parse of the displayed text"]),
 P("U04", "Hosts are told apart and addresses read with their exact value",
   "A bracketed host is an IPv6 address with the value of its groups (at most one '::', dotted-decimal tail allowed) or an IPvFuture literal; an unbracketed host is an IPv4 address exactly when the whole of it is four decimal octets 0-255 without leading zeros, and otherwise a registered name. Every valid address is accepted with its exact value and every invalid bracketed address is rejected.",
   [S + "parsers/host_parsers.rs", S + "parsers/ip_v4_address_parsers.rs", S + "parsers/ip_v6_address_parsers.rs", S + "models/host_name.rs"], [M("nine IPv6 alternatives", S + "parsers/ip_v6_address_parsers.rs"), M("dec_octet alternatives", S + "parsers/ip_v4_address_parsers.rs")],
   "address tests generate canonical addresses only, and never an invalid or over-long one", "every host text", ["inputs"], "runtime monitoring: differential oracle against std::net address parsing, with exhaustive octets and group shapes", N, ["Uri::host_name of the parsed URI"]),
 P("U05", "Queries and paths behave as an ordered multimap and a segment list",
   "A query keeps its parameters in order: looking a key up gives the values of all its occurrences in order (empty when it only occurs without value, nothing when it does not occur), adding appends, adding an absent value changes nothing, and its text joins the parameters with '&' and '='. A path keeps its parts in order under appending and kind changes, and displays as their concatenation.",
   [S + "models/query.rs", S + "models/path.rs"], [M("params multimap", S + "models/query.rs"), M("parts vector", S + "models/path.rs")],
   "one test looks up two keys of one query; operation sequences are not sampled", "every operation sequence", ["inputs", "histories"], "runtime monitoring: model-based checker over recorded operation sequences", "Seeded exploration against list and map models. Adding parts to the empty path kind is outside the property.", ["Query and Path accessors and Display"]),
 P("U06", "Every text parses or is rejected without panicking",
   "Parsing any text whatsoever, of any length, terminates with either a URI or an error that can be displayed, and everything offered by an accepted URI can be used without panicking.",
   PP, [M("Uri::parse", S + "models/uri.rs")], "tests feed only valid texts", "every text", ["inputs"], "runtime monitoring: panic and hang monitor over hostile texts", "Seeded exploration; panics, hangs and empty messages are violations.", ["Uri::parse outcome, error Display, accessors"]),
]
