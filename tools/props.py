"""Writes properties.jsonl (the statements live here, in one readable place)."""
import json, os
P = []
J = "serde_json_path/src/"
C = "serde_json_path_core/src/"

def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe or ["JsonPath::parse, JsonPath::query"], "hook_needed": None}})

prop("C01", "Segments and selectors are accepted and read exactly as RFC 9535 says",
     "A text made of `$`, child and descendant segments (dot shorthand, wildcard, brackets, blanks), and name, wildcard, index and slice selectors is accepted exactly when the RFC 9535 grammar accepts it, the whole text being consumed. What is accepted has the structure the grammar gives it: it selects the nodes the RFC's semantics select.",
     ["inputs"], "every text of the bounded templates: any 7-bit bytes, and any UTF-8 bytes in names, at every position the template leaves open",
     "The suites sample some hundred fixed texts; a wrong boundary of a character class, a blank allowed or refused in one place, or input left over after a valid prefix shows only on texts nobody wrote down.",
     [J + "parser/mod.rs", J + "parser/segment.rs", J + "parser/selector/mod.rs", J + "parser/selector/slice.rs"],
     [("parse_query_main, parse_query, parse_path_segments", J + "parser/mod.rs"), ("parse_segment, parse_dot_member_name, parse_multi_selectors", J + "parser/segment.rs"), ("parse_selector", J + "parser/selector/mod.rs"), ("parse_array_slice", J + "parser/selector/slice.rs")])
prop("C02", "Filter expressions are accepted, grouped and typed exactly as RFC 9535 says",
     "A filter selector is accepted exactly when the RFC's grammar and well-typedness rules accept it: `&&` binds tighter than `||`, `!` applies to a parenthesised expression, a test query or a logical function only, comparisons take literals, singular queries and value functions only, blanks go only where the grammar has them, and a standard function is called with the number and types of arguments it declares and used only where its result type allows. What is accepted selects exactly the nodes the RFC's semantics select.",
     ["inputs"], "every filter text of the bounded templates (free bytes around operators, operands, parentheses, function names, arguments), and every standard function by every listed argument list and use",
     "Operator mixes, grouping and typing combine; the suites have one or two examples of each, none of which settles how the combinations are read.",
     [J + "parser/selector/filter.rs", J + "parser/selector/function/mod.rs", C + "spec/functions.rs", C + "spec/selector/filter.rs"],
     [("parse_filter, parse_logical_or_expr, parse_basic_expr, parse_comp_expr", J + "parser/selector/filter.rs"), ("parse_function_expr, parse_function_argument", J + "parser/selector/function/mod.rs"), ("FunctionExprArg::as_type_kind, FunctionArgType::converts_to", C + "spec/functions.rs")])
prop("C03", "String literals and quoted names denote exactly the string RFC 9535 says",
     "A single- or double-quoted string is accepted exactly when its characters and escapes are those RFC 9535 allows in that kind of quotes (control characters, foreign quotes escaped, unpaired or malformed surrogates and unknown escapes are refused). An accepted one, used as a name selector, in a comparison or as a function argument, stands for exactly the decoded string: it selects the member of that name and no other.",
     ["inputs"], "every UTF-8 content of up to five free bytes in either kind of quotes, every escape with any hex digits including surrogate pairs, in three positions of a query",
     "The suites try a few dozen strings out of all code points and all 2^32 surrogate pairs; a decoding that is off for one range of code points passes them.",
     [J + "parser/primitive/string.rs"], [("parse_string_literal, parse_escaped_char, parse_unicode_sequence", J + "parser/primitive/string.rs")])
prop("C04", "Numbers in queries are accepted and valued exactly",
     "An integer in an index or slice is accepted exactly when it has no leading zero, is not `-0` and lies within -(2^53-1)..=2^53-1, and the index read is the index used. A number literal in a filter is accepted exactly when RFC 9535 allows its form (sign, fraction, exponent), and compares equal to the JSON number of the same text and unequal to its opposite.",
     ["inputs"], "every digit string of up to 8 free digits and every 16- and 17-digit string around 2^53 in index, slice and singular-query position; every text of the number templates over digits, dot, exponent and signs",
     "The limits are sixteen digits long: the suites test the exact limits in one or two places and none of the other positions or digit strings.",
     [J + "parser/primitive/int.rs", J + "parser/primitive/number.rs", C + "spec/integer.rs"],
     [("parse_int", J + "parser/primitive/int.rs"), ("parse_number", J + "parser/primitive/number.rs"), ("Integer::try_new", C + "spec/integer.rs")])
prop("C05", "Parsing is total, and an error points into the text",
     "Parsing any text returns: it never panics, overflows or loops. An error reports a position within the text (at most its length, on a character boundary), a non-empty message, and prints as that position and message.",
     ["inputs"], "every UTF-8 text of the bounded templates: short free texts, and free continuations of every kind of unfinished token",
     "Truncated tokens, multi-byte characters and overlong numbers at every place are not something the suites have; a single slice at the wrong byte is a crash on untrusted input.",
     [J + "parser/mod.rs", J + "parser/primitive/string.rs", J + "parser/primitive/number.rs", J + "error.rs"],
     [("JsonPath::parse", J + "path.rs"), ("From<(I, Error<I>)> for ParseError", J + "error.rs"), ("parse_escaped_char", J + "parser/primitive/string.rs")], ["JsonPath::parse, ParseError::position, message, Display"])
prop("C06", "A query selects the right nodes, in the right order, as often as it should",
     "Evaluating segments and selectors on a document yields exactly the RFC 9535 nodelist: selectors contribute in the order written, per input node and in order, array elements in index order, members in the document's order, descendants with a node before its children, repetitions kept. Every node is a reference into the queried document, and evaluating a query segment by segment gives the same list.",
     ["inputs", "programs"], "every document of depth and width two (thorough: three) with any member names, by every pair of segments from a list of 28",
     "Order, repetition and descendants depend on the shape of the document; the suites look at a handful of documents.",
     [C + "spec/query.rs", C + "spec/segment.rs", C + "spec/selector/mod.rs", C + "spec/selector/name.rs"],
     [("Query::query", C + "spec/query.rs"), ("Segment::query, descend, descend_paths", C + "spec/segment.rs"), ("Selector::query", C + "spec/selector/mod.rs")], ["JsonPath::query, JsonPathExt::json_path"])
prop("C07", "Slices and indices select exactly what RFC 9535 computes, for any bounds",
     "On an array of any length within bounds, a slice with any or no start, end and step and an index of any value in the allowed range select exactly the elements RFC 9535's definition computes (negative counts from the end, step zero selects nothing, a negative step reverses), with the right locations and without overflow or panic. They select nothing from a value that is not an array.",
     ["inputs"], "all 64-bit start, end, step and index values in the I-JSON range, each present or absent, arrays of up to 4 (thorough: 5) elements",
     "Three 54-bit parameters by a length: clamping and overflow errors sit at combinations of limits the suites do not list.",
     [C + "spec/selector/slice.rs", C + "spec/selector/index.rs"], [("Slice::query, query_located and their bounds", C + "spec/selector/slice.rs"), ("Index::query, query_located", C + "spec/selector/index.rs")])
prop("C08", "Comparisons follow RFC 9535 for all values",
     "`==`, `!=`, `<`, `<=`, `>`, `>=` between any two values, absent nodes included, yield what RFC 9535 defines: numbers by value whatever their representation, strings by code points, arrays and objects deeply, order only among numbers and among strings, nothing equal only to nothing. `!=` is the negation of `==`, `<=` is `<` or `==`, `>` and `>=` mirror them, and it makes no difference whether an operand is a literal, a singular query or a function result.",
     ["inputs"], "all pairs of 17 kinds of value with free payload: any I-JSON integer, any finite double, any string of two bytes, small arrays and objects, and absence; literals and function results as operands",
     "Six operators by all pairs of kinds by their values; the suites use single values of each kind, so mixed number representations, nesting and absence go untested.",
     [C + "spec/selector/filter.rs"], [("ComparisonExpr::test_filter, check_equal_to, check_less_than", C + "spec/selector/filter.rs"), ("Comparable::as_value", C + "spec/selector/filter.rs")])
prop("C09", "Filters keep exactly the children for which the expression holds",
     "A filter selector selects exactly those elements of an array or member values of an object for which its expression holds, in order, and nothing from other values. `@` is the child tested and `$` the root of the whole query however deeply filters nest, an existence test asks only whether the query selects any node (null, false and 0 exist), and `&&`, `||`, `!` and parentheses have their logical meaning.",
     ["inputs", "programs"], "every document of depth and width two by 31 filter queries; every assignment of presence to the operands of logical expressions; existence tests on every kind of value",
     "Which children pass depends on the expression and the document together; the suites have single documents for each.",
     [C + "spec/selector/filter.rs"], [("Filter::query, query_located", C + "spec/selector/filter.rs"), ("LogicalOrExpr, LogicalAndExpr, BasicExpr, ExistExpr::test_filter", C + "spec/selector/filter.rs")])
prop("C10", "length, count and value compute what RFC 9535 says for every argument",
     "`length` gives the number of characters (Unicode scalar values) of a string, of elements of an array or of members of an object, and nothing for any other or absent argument. `count` gives the number of nodes, `value` the value of the only node, and nothing for none or several.",
     ["inputs"], "strings of up to four free bytes, every kind of value, and every document of depth and width two under 26 queries using the functions",
     "Counting characters is right on ASCII by accident; the suites have a handful of arguments.",
     [J + "parser/selector/function/registry.rs"], [("length, count, value", J + "parser/selector/function/registry.rs")])
prop("C11", "match and search agree with the regular expression they are given",
     "`match` holds exactly when the whole string matches the regular expression and `search` exactly when some part of it does, for patterns given as a literal or by the document; a dot does not match a line feed or carriage return. An argument that is not a string, is absent, or is not a regular expression makes both false.",
     ["inputs"], "every subject string of up to two free UTF-8 bytes by 36 patterns (alternation, classes, quantifiers, escapes, groups, and 8 that are not regular expressions); every pair of kinds of argument",
     "Anchoring fails on alternations, newlines and patterns that end the wrapping group; the suites have few subjects per pattern.",
     [J + "parser/selector/function/registry.rs"], [("match_func, search, their construction of the regular expression", J + "parser/selector/function/registry.rs")])
prop("C12", "Located queries give the same nodes, each with its true location",
     "A located query yields exactly the nodes of the plain query, in the same order and number, each with the normalized path that leads to it from the root of the document. Walking a location leads to its node, querying its printed form gives exactly that node, and two locations are equal exactly when their nodes are the same.",
     ["inputs", "programs"], "every document of depth and width two with any member names by every pair of segments from a list of 28",
     "Plain and located evaluation are separate code for every selector; the suites compare them on few queries.",
     [C + "spec/query.rs", C + "spec/segment.rs", C + "spec/selector/mod.rs", C + "spec/selector/filter.rs", C + "spec/selector/slice.rs", C + "spec/selector/index.rs", C + "spec/selector/name.rs", C + "path.rs"],
     [("query_located of Query, Segment and every selector", C + "spec/"), ("NormalizedPath::clone_and_push", C + "path.rs")], ["JsonPath::query_located"])
prop("C13", "Normalized paths print in the canonical form of RFC 9535",
     "The location of a node prints as the normalized path RFC 9535 prescribes: every name in single quotes with exactly the prescribed escapes, every index in decimal, nothing else. Parsing the printed form as a query finds exactly that node, and serializing gives the same text.",
     ["inputs"], "every member name of up to four free UTF-8 bytes (thorough: six 7-bit), indices of one and two digits, up to four levels",
     "There is one canonical text for each of all possible names; the suites try a few names.",
     [C + "path.rs"], [("Display for NormalizedPath and PathElement, Serialize", C + "path.rs")], ["NormalizedPath Display and Serialize, PathElement Display"])
prop("C14", "The JSON Pointer of a location finds the same node",
     "The JSON Pointer of a location is the RFC 6901 pointer of its names and indices, with `~` and `/` escaped and the root giving the empty pointer. Looking it up in the document gives the very node, and the pointers of different nodes differ.",
     ["inputs"], "every member name of up to five free bytes, pairs of nested names of up to three bytes, indices of one and two digits",
     "Escaping goes wrong only on mixtures of `~`, `/` and digits such as `~01`; the suites try a few.",
     [C + "path.rs"], [("NormalizedPath::to_json_pointer, PathElement::to_json_pointer", C + "path.rs")], ["NormalizedPath::to_json_pointer"])
prop("C15", "A query prints as text that is the same query",
     "The string form of every accepted query is itself an accepted query, equal to the first, that selects the same nodes on any document and prints as the same text again. Serializing a query gives that text.",
     ["inputs", "programs"], "every accepted query of 26 bounded templates over all kinds of segments, selectors, strings, numbers, operators, negations and function calls",
     "Printing forgets a parenthesis, a negation or an escape only for particular queries; the suites round-trip about two dozen.",
     [C + "spec/segment.rs", C + "spec/selector/mod.rs", C + "spec/selector/filter.rs", C + "spec/functions.rs", C + "spec/query.rs", J + "path.rs"],
     [("Display of every part of a query", C + "spec/"), ("Serialize for JsonPath", J + "path.rs")], ["JsonPath Display and Serialize"])
prop("C16", "Node lists and locations keep their contracts under every method",
     "All ways of reading a node list or located node list (length, emptiness, first, last, get, iteration, at_most_one, exactly_one and their errors, all, serialization) agree with the list of nodes selected; the location and node iterators are exact-sized, double-ended and fused for any interleaving of calls from both ends. Deduplication keeps each location exactly once and loses none; a normalized path's elements, accessors, comparison and order agree with the steps it stands for.",
     ["inputs", "histories"], "lists of up to nine nodes with repetitions from 15 queries, any index, any interleaving of next and next_back; deduplication over every document of depth and width two",
     "Contracts of iterators are about sequences of calls, and deduplication about coincidences; the suites call each method once on a simple list.",
     [C + "node.rs", C + "path.rs"], [("NodeList, LocatedNodeList, Locations, Nodes, dedup_in_place", C + "node.rs"), ("NormalizedPath, PathElement", C + "path.rs")], ["NodeList, LocatedNodeList, Locations, Nodes, NormalizedPath, PathElement"])
prop("C17", "Integers never leave the I-JSON range and compute exactly",
     "An integer is constructed, from any integer type or from text, exactly when its value lies within -(2^53-1)..=2^53-1, and then has that value; otherwise the error says so. Checked arithmetic is exact when the result is in range and gives nothing otherwise; absolute value, comparisons, conversion to a size and printing agree with the value.",
     ["inputs"], "all values of all integer types up to 128 bits; all pairs of operands for addition, subtraction and comparison; multiplication by ten factors; texts around 2^53",
     "The suites try the limits for one type; the operators and the other types have limits of their own.",
     [C + "spec/integer.rs"], [("Integer::try_new, TryFrom, FromStr, checked_*, abs", C + "spec/integer.rs")], ["Integer"])
prop("C18", "Registered functions are found, checked and called as declared",
     "A function registered with the `function` attribute is callable by its declared name, and by no other, wherever its result type allows, exactly with as many arguments of such kinds as its parameter types accept; otherwise the query is refused, and an unknown name, a wrong number or a wrong kind of argument is reported as such: where a test begins with the call, at the call, with the name, with the expected and the received number, or with the argument's place (from 0) and the kind expected. When evaluated it receives exactly the nodes, values or truths its arguments denote, and its result is used as that of a standard function would be.",
     ["inputs", "programs"], "sixteen registered functions with up to six parameters of all types and results of all types, 72 argument lists, 12 uses, free bytes in names and around brackets, and arguments of every kind of value",
     "Names, arities and types combine freely; the suites register three functions.",
     ["serde_json_path_macros/src/internal/common/define.rs", "serde_json_path_macros/src/internal/common/extract.rs", J + "parser/selector/function/mod.rs", C + "spec/functions.rs"],
     [("expansion of #[function]: validator and evaluator", "serde_json_path_macros/src/internal/common/define.rs"), ("parse_function_expr", J + "parser/selector/function/mod.rs"), ("FunctionExpr::evaluate, FunctionExprArg::evaluate, as_type_kind", C + "spec/functions.rs")], ["serde_json_path::function, JsonPath::parse, JsonPath::query"])
prop("C19", "Every way to build or apply a query agrees, and none has a memory",
     "Parsing a text by any of the entry points (parse, FromStr, deserialization) accepts the same texts and yields equal queries, or the same error. Applying a query, a clone of it, or through the extension trait, before or after any other use, gives the same nodes.",
     ["inputs", "histories"], "every text of the bounded templates, accepted or not, applied repeatedly and to different documents in between",
     "The suites use one entry point per test and every query once.",
     [J + "path.rs", J + "ext.rs"], [("JsonPath::parse, FromStr, Deserialize", J + "path.rs"), ("JsonPathExt", J + "ext.rs")], ["JsonPath, JsonPathExt, serde"])
prop("C20", "Conversions between function types allow exactly the declared cases",
     "A dynamic function value converts to a nodes, value or logical type exactly when RFC 9535's type system allows it, and converts to the corresponding value: nodes to truth by being non-empty, a single node to its value, nothing to no nodes, to nothing or to false. What the type checker declares convertible is exactly what can be converted.",
     ["inputs"], "all dynamic forms by all target types with any kind of value and up to two nodes; all 15 entries of the static table",
     "The conversions run only behind functions; the suites reach a few of the fifteen.",
     [C + "spec/functions.rs"], [("TryFrom<JsonPathValue> for NodesType, LogicalType, ValueType", C + "spec/functions.rs"), ("FunctionArgType::converts_to", C + "spec/functions.rs")], ["serde_json_path::functions"])
prop("C21", "Queries can be parsed and applied from any number of threads",
     "Parsing and evaluating queries from several threads at once, the very first use of the function registry included, gives each thread what it would get alone.",
     ["schedules"], "all interleavings of threads that parse and query", "The suites are sequential apart from compile-time Send and Sync assertions.",
     [J + "parser/selector/function/registry.rs", J + "parser/selector/function/mod.rs"], [("Lazy REGISTRY, inventory iteration", J + "parser/selector/function/registry.rs")])
prop("C22", "Twice the text or document takes about twice the work, however it nests",
     "Parsing a text, printing, cloning or comparing the query it gives, and evaluating a query take work proportionate to the size of text, document and result: doubling the length, the width or the depth of nesting about doubles the work (where locations are made or each descendant is a root of its own, which are quadratically many in a chain, it may quadruple). In particular no level of nested filters, functions, arguments, parentheses, brackets or of the document multiplies the work, whether the text is valid or not.",
     ["inputs"], "35 kinds of nested texts of 4 and 8, and 10 and 20, levels, 40 kinds of texts that repeat a unit 40 and 80 (some 200 and 400) times, both with two free bytes of the 18 that matter to filters; 28 queries on arrays and objects 20 and 40 wide and chains 20 and 40 deep with leaves of six kinds, free values; the nested queries on chains as deep", "The suites have short texts and shallow documents, and measure nothing.",
     [J + "parser/selector/filter.rs", J + "parser/selector/function/mod.rs", J + "parser/segment.rs", C + "spec/segment.rs", C + "spec/selector/filter.rs"], [("parse_basic_expr, parse_function_argument: one parse of what nests", J + "parser/selector/"), ("descend, eval_query", C + "spec/segment.rs")])
prop("C23", "No nesting of text or document exhausts the stack",
     "Parsing a text and evaluating a query use a bounded stack, however deeply text or document nest.",
     ["inputs"], "texts and documents of unbounded nesting", "The suites have short texts and shallow documents.",
     [J + "parser/selector/filter.rs", C + "spec/segment.rs"], [("recursive descent parser; recursive descend", J + "parser/")])
prop("C24", "Feature flags change only what they name",
     "Whatever of the crate's features is switched on or off: without `regex` the functions `match` and `search` are unknown and queries that call them are refused, without `functions` the functions registered by the program are unknown, and with `trace` – whether or not anybody subscribes – nothing changes. Everything else (which texts are accepted, the errors and their positions, the nodes and locations selected, printed forms) is as with the default features.",
     ["inputs", "configurations"], "builds with no features, `functions` only, `regex` only, and the default ones with `trace`, the last also with a subscriber that formats every span and event; in each, a hundred and fifty of the tasks of the other properties, with their free bytes and documents",
     "The suites run with one set of features; code under another is compiled at most.",
     [J + "parser/selector/function/mod.rs", J + "parser/selector/function/registry.rs", J + "error.rs", "serde_json_path/Cargo.toml"], [("cfg(feature = ...)", J + "parser/"), ("registry of functions", J + "parser/selector/function/registry.rs")], ["features trace, functions, regex"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
