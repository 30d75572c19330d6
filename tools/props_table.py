# Properties of be-tree: source of properties.jsonl and MANIFEST.json (tools/gen.py).
T = []
def P(id, title, statement, over, text, why, files, mech, note, observe=None):
    T.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe or []))

P("C01", "A search reports exactly the matching subscriptions",
  "For every valid event, a search reports each inserted subscription whose expression is true for that event exactly once and no other subscription. This holds for subscriptions over several attributes of different types, in any insertion order and with any node capacity, and when the event lists its attributes in any order.",
  ["inputs", "histories", "configurations"],
  "all attribute values, constants, insertion orders and capacities within the bounds (up to 7 subscriptions over 4 attributes of different types)",
  "Tests search a few fixed trees with fixed events; which index nodes are visited depends on every combination of constants, order and event values.",
  ["src/tree.c", "src/betree.c", "src/ast.c"],
  [("tree descent and evaluation", "src/tree.c: match_be_tree, betree_search_with_preds"), ("evaluation", "src/ast.c: match_node")],
  "")
P("C02", "Every operator has its documented meaning on every operand",
  "A subscription made of one predicate matches exactly when the documented meaning of its operator holds for the event's value: comparisons and equality on integers, floats, strings and integer enums, boolean variables, set membership in both directions, one of / none of / all of, and null/empty tests. This holds for operands over the whole range of the type, also outside the declared domain and for list constants in any order and with repeats.",
  ["inputs"],
  "all 64-bit integer operands, all finite doubles for the order comparisons, lists of up to 3 values on each side, one- and two-byte strings",
  "Tests check each operator on one or two values; wrong signedness, truncation, binary-search and merge-loop mistakes show only on particular value combinations.",
  ["src/ast.c", "src/utils.c", "src/value.c"],
  [("predicate evaluation", "src/ast.c: match_compare_expr, match_equality_expr, match_set_expr, match_list_expr, match_is_null_expr"), ("list ordering", "src/ast.c: sort_lists; src/betree.c: sort_event_lists")],
  "")
P("C03", "The index never hides a matching subscription",
  "However the tree has been split, a subscription whose predicates on an attribute hold for the event is found: partitioning by attribute and by value range, whatever the attribute type, negation, and/or combination, domain bounds, node capacity and position among other subscriptions, never removes a match. Values outside the declared domain match as well.",
  ["inputs", "configurations", "histories"],
  "all constants and event values within the bounds, 9 boolean shapes of two predicates, 7 attribute types, several domains, subscription placed anywhere among four others in a tree that splits after every insertion",
  "Tests index a handful of subscriptions in default-size nodes; a wrong bound for one operator under one negation loses matches only for some constant/value pairs and only after splits.",
  ["src/ast.c", "src/tree.c", "src/config.c"],
  [("expression bounds", "src/ast.c: get_variable_bound"), ("splitting and placement", "src/tree.c: space_partitioning, space_clustering, insert_cdir, search_cdir, is_event_enclosed")],
  "")
P("C04", "Undefined attributes and short-circuiting never change a result",
  "When an optional attribute is missing or null in the event, predicates on it are false (except the null test), and and/or/not combine those results as ordinary booleans. Skipping a subscription because attributes are missing never changes whether it is reported.",
  ["inputs", "programs"],
  "all boolean structures of the listed 17 shapes with up to three leaves, any leaf kind per position, every attribute defined or missing, any value",
  "Tests exercise a few expressions with one missing attribute; the shortcut masks interact with every nesting of not/and/or.",
  ["src/tree.c", "src/ast.c"],
  [("short-circuit masks", "src/tree.c: make_sub, fill_pred_attr_var / short circuit masks"), ("undefined handling", "src/ast.c: match_node; src/var.c")],
  "")
P("C05", "Sharing results between equal predicates never mixes them up",
  "The result of a subscription does not depend on which other subscriptions are in the tree: a remembered predicate result is only reused for a predicate with the same meaning on the same attributes. Two predicates that differ in attribute, operator, constants or kind are always evaluated separately.",
  ["inputs", "programs"],
  "all pairs of predicate kinds of the language with symbolic constants, each used twice so that results are remembered, in negated and combined positions",
  "Tests compare a few pairs for equality; a missing field in the equality or ordering of predicates shows only when two subscriptions differ in just that field and one is evaluated first.",
  ["src/ast.c", "src/ast_compare.c", "src/hashmap.c", "src/memoize.c", "src/jsw_rbtree.c"],
  [("predicate identity", "src/ast.c: eq_expr; src/ast_compare.c: expr_cmp; src/hashmap.c: assign_pred"), ("result reuse", "src/ast.c: match_node_inner; src/memoize.c")],
  "")
P("C06", "Frequency caps allow an impression exactly when documented",
  "A frequency-cap predicate looks up the event's cap with the same type, id and namespace: with no such cap it is true; with a non-positive window it is true when the limit exceeds the count; otherwise it is true when the cap has no timestamp, when more than the window has passed since the timestamp, or when the limit exceeds the count. With the caps attribute undefined it is false, and with caps present but no current time it is false.",
  ["inputs"],
  "all 32-bit ids and counts, 63-bit limits, 32-bit windows, timestamps and clock values within the bounds, up to two caps, every cap type and namespace relation",
  "Tests use fixed caps and times; window boundary, microsecond division and type/id/namespace mix-ups need specific values.",
  ["src/special.c", "src/ast.c", "src/value.c"],
  [("cap test", "src/special.c: within_frequency_caps"), ("inputs", "src/ast.c: match_special_expr")],
  "")
P("C07", "Segment predicates compare the segment's age correctly",
  "segment_within is true exactly when the event has the segment and its timestamp (microseconds) is not older than the given number of seconds before the current time; segment_before exactly when it has it and it is older. A missing segment, segment list or current time makes both false, for the default segment attribute and for a named one.",
  ["inputs"],
  "all segment ids, timestamps, durations and clock values within the bounds, up to three segments in any order",
  "Tests use one or two fixed segments; boundary seconds and lookups among several segments need specific values.",
  ["src/special.c", "src/ast.c"],
  [("segment tests", "src/special.c: segment_within, segment_before"), ("inputs", "src/ast.c: match_special_expr")],
  "")
P("C08", "The geographic radius test decides by great-circle distance",
  "geo_within_radius matches exactly when latitude and longitude are defined and the great-circle distance in kilometres between the event's position and the centre is at most the radius. Within the numeric error of the distance this holds for every radius and for positions in every quadrant.",
  ["inputs"],
  "all radii (doubles in [0, 25000] of bounded precision) for a fixed grid of position pairs; positions themselves are concrete because trigonometric functions have no solver theory",
  "Tests use one location and one radius; swapped coordinates, signs, or units show only for other positions or radii close to the distance.",
  ["src/special.c", "src/ast.c"],
  [("distance test", "src/special.c: geo_within_radius"), ("inputs", "src/ast.c: match_special_expr")],
  "")
P("C09", "String pattern predicates are exact",
  "contains, starts_with and ends_with match exactly when the pattern occurs in the event's string, at its start, or at its end, for any contents and lengths including patterns longer than the string and empty strings. An undefined string matches none of them.",
  ["inputs"],
  "all strings of up to 4 bytes against all patterns of up to 3 bytes over arbitrary byte values on the event side",
  "Tests use a few words; off-by-one errors need particular length relations or repeated prefixes.",
  ["src/special.c", "src/ast.c"],
  [("pattern tests", "src/special.c: contains, starts_with, ends_with")],
  "")
P("C10", "Invalid expressions are refused and leave the tree as it was",
  "Inserting an expression that does not parse, names an attribute that was not declared, uses a string beyond a bounded attribute's capacity, or misses a needed constant returns failure; a valid expression returns success. After a refusal every search behaves as if the call had not been made.",
  ["inputs", "histories", "programs"],
  "all sequences of up to 4 insertions drawn from valid and invalid expressions of every predicate kind, any string contents among the enumerated ones, any bound 1..3",
  "Tests try a few invalid expressions alone; capacity accounting across several insertions and effects of a refused call on later searches are not sampled.",
  ["src/betree.c", "src/ast.c", "src/config.c"],
  [("validation", "src/betree.c: is_valid, betree_insert_with_constants; src/ast.c: all_variables_in_config, all_bounded_strings_valid"), ("string ids", "src/config.c: get_id_for_string")],
  "")
P("C11", "Events missing a mandatory attribute are refused",
  "A search returns failure and reports nothing when an attribute declared mandatory is missing or null in the event, and succeeds whenever all mandatory attributes are present, whatever optional attributes are missing. Existence queries treat such an event as matching nothing.",
  ["inputs", "configurations"],
  "every combination of mandatory/optional declaration and present/missing/null over 4 attributes, both event forms",
  "Tests use one mandatory attribute; the check must hold for every combination and for every attribute position.",
  ["src/betree.c", "src/tree.c", "src/var.c"],
  [("event validation", "src/tree.c: validate_variables; src/betree.c: betree_search_with_event_filled")],
  "")
P("C12", "Existence queries and both event forms agree with search",
  "An existence query returns true exactly when a search with the same event reports at least one subscription. Searching with an event built through the API gives the same result as searching with the equivalent text event.",
  ["inputs", "histories"],
  "all attribute values within the bounds, trees of up to 5 subscriptions in splitting nodes",
  "Tests call the existence query on one or two events; it descends the tree with its own code.",
  ["src/betree.c", "src/tree.c"],
  [("existence descent", "src/tree.c: betree_exists_with_preds, match_be_tree_node_exists"), ("built events", "src/betree.c: betree_search_with_event, fill_event")],
  "")
P("C13", "Search statistics are consistent",
  "After a search the reported number of matches equals the number of listed subscriptions, and never exceeds the number evaluated; every evaluated subscription is one that was inserted and the number short-circuited never exceeds the number evaluated. A report used for one search starts from zero, and the counts do not depend on the order of attributes in the event.",
  ["inputs", "histories"],
  "all attribute values within the bounds for trees of up to 6 subscriptions with shared predicates",
  "Tests look at the counters of a few fixed searches.",
  ["src/tree.c", "src/memoize.c"],
  [("counting", "src/tree.c: betree_search_with_preds; src/ast.c: match_node_inner")],
  "")
P("C14", "Expression text is read as the grammar says",
  "Parsing gives each expression the meaning of its text: not binds tighter than and, and tighter than or, parentheses override this, alternative spellings (&&/and, ||/or, value on the left, single or double quotes, spaces) are equivalent, and integer and decimal literals denote their exact value. Text that is not an expression is refused.",
  ["inputs", "programs"],
  "all operator sequences of three operators over four leaves with optional negations and parentheses, all spellings, all literal digit strings within the bounds",
  "Tests parse a few dozen fixed texts; precedence and literal values must hold for every sequence and digit string.",
  ["src/parser.y", "src/lexer.l", "src/parser.c", "src/lexer.c", "src/ast.c"],
  [("grammar", "src/parser.c (generated from parser.y), src/lexer.c")],
  "")
P("C15", "Event text is read exactly",
  "Every attribute of a text event reaches evaluation with the value written: integers and decimals with sign, booleans, strings, empty and non-empty integer and string lists, segments and frequency caps, in any attribute order, with null meaning undefined. An integer written for a float attribute is that number.",
  ["inputs"],
  "all literal values within the bounds, every value kind, every order of up to four attributes",
  "Tests parse a few fixed events.",
  ["src/event_parser.y", "src/event_lexer.l", "src/event_parser.c", "src/event_lexer.c", "src/betree.c"],
  [("event grammar", "src/event_parser.c"), ("typing of values", "src/betree.c: fill_event")],
  "")
P("C16", "Copies of expressions are equal to the original and independent",
  "Copying an expression gives one that is equal to it, evaluates the same on every event, and does not share storage with the original. Expression equality is reflexive and symmetric, and distinguishes expressions with different results.",
  ["inputs", "programs"], "all predicate kinds with symbolic constants", "Tests clone and compare a few fixed expressions.",
  ["src/clone.c", "src/ast.c"], [("copy", "src/clone.c: clone_node"), ("equality", "src/ast.c: eq_expr")], "")
P("C17", "Adjusting domain boundaries never loses a match",
  "After domain boundaries have been adjusted to a set of expressions, inserting those expressions succeeds and every search still reports exactly the matching subscriptions. An expression that cannot be used is refused without effect.",
  ["inputs", "histories"],
  "all constants and event values within the bounds, sequences of up to 3 boundary adjustments for every predicate kind",
  "Tests inspect the adjusted bounds of single expressions; whether a later search is exact depends on constants and values.",
  ["src/betree.c", "src/tree.c"],
  [("adjustment", "src/betree.c: betree_change_boundaries, change_boundaries")],
  "")
P("C18", "Preparing and inserting separately equals inserting at once",
  "Preparing subscriptions first and inserting them afterwards gives the same search results as inserting each expression directly, including expressions that need constants. Preparing an invalid expression fails without effect.",
  ["inputs", "histories", "programs"],
  "all constants and event values within the bounds, up to 4 subscriptions of every predicate kind, in splitting trees",
  "Tests use the two-step interface on a few expressions.",
  ["src/betree.c", "src/tree.c"],
  [("two-step insertion", "src/betree.c: betree_make_sub, betree_insert_sub")],
  "")
P("C19", "Insertion always completes",
  "Inserting valid subscriptions always returns success after finitely many steps and without aborting, for every domain of every type (single value, two values, full range, fractional width), node capacity, and repetition of the same expression or id. Searching the resulting tree is exact.",
  ["inputs", "configurations", "histories"],
  "all domain bounds within the stated widths including the extremes of the type, capacities 1..3, up to 6 subscriptions with the same or different constants",
  "Tests use small round domains and default capacities; splitting loops forever or overflows only for particular bounds and repeated values.",
  ["src/tree.c", "src/config.c"],
  [("splitting", "src/tree.c: space_clustering, update_partition_score, is_overflowed, split_value_bound"), ("domains", "src/config.c")],
  "")
P("C20", "Every use of the library is memory-safe and releases everything",
  "For every valid sequence of declaring attributes, inserting, searching and freeing, the library never reads or writes outside an object, uses freed or uninitialised memory, or performs an undefined operation; after freeing the tree, reports and events no memory remains allocated. This also holds when inputs are refused.",
  ["inputs", "histories"],
  "the input spaces of the other harnesses, run with per-access memory checks, undefined-operation traps and an allocation count at the end",
  "Tests run without such checks, or with valgrind on fixed inputs.",
  ["src/tree.c", "src/betree.c", "src/ast.c", "src/value.c", "src/var.c", "src/config.c"],
  [("ownership", "src/value.c: free_value; src/tree.c: free_sub, free_cnode; src/var.c: free_event")],
  "")
P("C21", "Constants supplied at insertion are used by the right predicate",
  "A frequency-cap predicate uses the integer constant supplied under the name its cap type needs, wherever it is in the expression and in whatever order constants are given. Insertion fails when a needed constant is missing and ignores constants that are not needed.",
  ["inputs", "programs"],
  "all constant values within the bounds, every cap type, up to three constants in every order, every position in and/or/not",
  "Tests supply the constants for one or two cap types.",
  ["src/ast.c", "src/betree.c"],
  [("constants", "src/ast.c: assign_constants, get_constant_name_for_type")],
  "")
P("C22", "Results do not depend on how many attributes are declared",
  "With many declared attributes (more than one machine word of them), every search still reports exactly the matching subscriptions, wherever the used attributes are in the declaration order. Definitions are returned in declaration order with their types.",
  ["inputs", "configurations"],
  "up to 130 attributes, subscriptions using any two positions around word boundaries, each attribute defined or not, any value",
  "Tests declare fewer than 64 attributes or look at one fixed layout.",
  ["src/tree.c", "src/config.c", "src/utils.c"],
  [("attribute bit masks", "src/tree.c: make_sub, betree_search_with_preds; src/utils.h bit operations")],
  "")
P("C23", "Searching never changes the tree",
  "Searching, in any number and order and with any valid or refused events, leaves later results unchanged: the same event gives the same report again, and insertions made between searches are seen by later searches only and affect no other subscription's result.",
  ["inputs", "histories"],
  "all histories of up to 5 searches and insertions with symbolic event values within the bounds, including unseen strings in events",
  "Tests run one search per tree.",
  ["src/tree.c", "src/betree.c", "src/config.c"],
  [("search is read-only", "src/betree.c: betree_search; src/config.c: string ids of events")],
  "")
P("C24", "Strings are compared by content within their attribute",
  "String equality and membership depend only on the characters, never on when a string was first seen: strings that appear in no subscription equal none of them, and the same text in two attributes is independent. Integer enums likewise.",
  ["inputs", "histories"],
  "all assignments of up to 4 strings to two attributes with symbolic event bytes, any insertion order, bounded and unbounded declarations",
  "Tests use a couple of strings in fixed order.",
  ["src/config.c", "src/ast.c", "src/var.c"],
  [("string ids", "src/config.c: get_id_for_string, try_get_id_for_string; src/ast.c: assign_str_id, assign_ienum_id")],
  "")
P("C25", "Distances are numerically accurate everywhere on the globe",
  "The distance used by the geographic radius test is within a small relative error of the true great-circle distance for every pair of positions.",
  ["inputs"], "all pairs of positions", "Tests use one pair of positions.",
  ["src/special.c"], [("distance", "src/special.c: geo_within_radius")], "")
P("C26", "A tree declared by lines of text is the tree the lines describe, and an emptied tree is as new",
  "add_variable_from_string declares the attribute with the name, type, optionality and bounds of its line (name|type|optional|min|max, bounds optional): the variable definitions are those of the lines in order, insertion accepts exactly the values that fit the number of values of the line, an event lacking an attribute declared mandatory is refused, and other events match exactly. After empty_tree no subscription is reported, the declarations are the same, and new subscriptions under the same ids match exactly; nothing stays allocated when the tree is freed.",
  ["inputs", "histories"], "every attribute type, with none, one and two bounds of any 64-bit (or floating point) value, optional or mandatory, up to three attributes per tree, any presence and value in the event, before and after emptying the tree",
  "Tests declare from lines only in the data-driven benchmark; emptied trees are reused with the same expressions.",
  ["src/helper.c", "src/config.c", "src/betree.c"], [("declaration", "src/helper.c: add_variable_from_string; src/config.c: add_attr_domain_*"), ("emptying", "src/helper.c: empty_tree")], "")
NOT_APPLICABLE = {
 "C25": "the accuracy of sin/cos/asin has no decidable solver theory here (Z3 has no IEEE transcendental functions); C08 decides the radius comparison with the distance computed on concrete positions",
}
