"""Which module decides which property, how, and the bounds of the claim."""
CHECKS = {}

HIST = ("explicit-state search over operation histories of the real objects, "
        "compared with a reference model at every step")
SPACE = ("exhaustive enumeration of a bounded space of objects and calls on "
         "the real code, compared with a reference model")


def reg(module, pids, technique, note):
    for p in pids.split():
        CHECKS[p] = (module, technique, note)


reg("c_slots", "C01 C02 C03 C04 C05", HIST,
    "Exhaustive within a finite value alphabet per declared type (conforming, "
    "falsy, subclass, coercible, wrongly coerced, uncoercible) and one to "
    "three slots; histories are merged by the model state until the space "
    "closes, and also explored unmerged to a fixed depth; values outside the "
    "alphabet and longer unmerged histories are not covered.")
reg("c_types", "C06", SPACE,
    "All access paths up to depth 3 (quick) or 4 (thorough) over one universe "
    "of mutually referring types with every kind of declared type, plus every "
    "pair of a path and a later path on fresh types, and declarations of every "
    "kind under the name of an accessor, in the same type or one below or "
    "(properties) above it.")
reg("c_types", "C07", SPACE + "; one forked process per declaration order",
    "All subsets of six options on eight property kinds, each declared alone, "
    "after each other combination and after all others, and in permuted "
    "option order; user-written property classes other than through "
    "make_property_type are not covered.")
reg("c_types", "C08", SPACE,
    "Hierarchies of up to four types over eleven property variants; all "
    "declaration/use orders for a fixed hierarchy shape; no diamonds.")
reg("c_types", "C32", SPACE,
    "Chains of one to three subtypes over four base types with four to seven "
    "conditions each (including raising ones), and values around their "
    "boundaries.")
reg("c_types", "C33", SPACE,
    "Every predefined property type with eight option variants over a value "
    "matrix of every input type; every day of several years and every second "
    "of one day for dates and times; the fallback date parser (no dateutil in "
    "this environment).")
reg("c_coll", "C09", HIST,
    "Every operation with every small index, slice and item from every "
    "contents of up to two or three items (quick) or three or four "
    "(thorough), and every sequence of two to four operations of a smaller "
    "alphabet, for sixteen kinds of list; a slice reads as a plain list; "
    "`in` is only tested with items of the item type.")
reg("c_coll", "C10", HIST,
    "Every operation with every key and item of the alphabet from every "
    "contents of up to two (quick) or three (thorough) items in every order, "
    "and every sequence of two to four operations of a smaller alphabet, for "
    "thirteen kinds of dictionary; an update that is refused half way may "
    "have taken effect up to there.")
reg("c_obj", "C11", SPACE,
    "All ordered pairs of all small objects of each of 26 types (objects "
    "with up to two or three slots set, and all of them), pairs across types, "
    "every object after every single change, and collections with plain "
    "values of every kind; primary keys do not include "
    "extraneous properties; no NaN.")
reg("c_obj", "C12", SPACE,
    "Every small object of 26 types, every string of up to two or three "
    "special characters in every kind of place, selectors of up to three "
    "elements, and results of comparisons.")
reg("c_obj", "C13", SPACE,
    "Every small object of 26 types times all six pickle protocols, copy and "
    "deepcopy, followed by every single change of the copy or the original; "
    "pickles are also read by another process; shallow copies may share "
    "nested values.")
reg("c_obj", "C30", HIST,
    "Every pair (thorough: triple) of sixteen observing operations on every "
    "small object, with every single change between two observations; a "
    "lazy slot may be evaluated by an observation that reads it.")
reg("c_json", "C14", SPACE,
    "Every small object of 15 types with JSON forms, with every single change "
    "of each, and every combination of record kind, container kind and JSON "
    "name up to three (thorough: four) levels deep; 60 integers around powers "
    "of two in every place; properties of collections, non-text keys and "
    "integers over 2**50 (without coerce=int) have no invertible JSON form.")
reg("c_json", "C15", SPACE,
    "All pairs of 34 declarations (quick: one of each pair from six) times 34 "
    "documents in four encodings, the JSON options on fifteen kinds of "
    "property, and unknown keys of every shape in every place.")
reg("c_json", "C16", "fault injection at every position of the documents of "
    "seven types, on the real code, compared with a reference model",
    "One bad value (of several kinds) at every position of documents in which "
    "every kind of place occurs, three levels deep; a single fault at a time. "
    "Lists of records given as objects of up to three (thorough: four) keys, "
    "in every order.")
reg("c_json", "C17", HIST,
    "Every JSON object over up to five keys, two values deep or three levels "
    "nested, all keys of up to three or four characters, and all histories of "
    "up to two (thorough: three) attribute operations; keys with underscores "
    "only for the non-converting flavour.")
reg("c_sel", "C18", HIST,
    "Every selector of up to three (thorough: four) elements times every "
    "small tree of nine record types with parts missing, times get, put, "
    "post, delete and pairs of them; selectors of the wrong kind for a place "
    "(an index into a record) and union types are not covered.")
reg("c_sel", "C19", SPACE,
    "Every selector of up to three elements over an alphabet with every "
    "special character, every key of up to three special characters, and "
    "every small set of selectors.")
reg("c_sel", "C20", HIST,
    "All pairs and triples of selectors of up to three or four elements over "
    "a small element alphabet, every slice, and every history of up to three "
    "extending operations with aliases alive.")
reg("c_sel", "C21", SPACE,
    "Every set of up to three selectors in every order and grouping, times "
    "every small tree; a wildcard next to an index or name at the same place "
    "is refused by the library and not covered.")
reg("c_sel", "C22", SPACE,
    "Every set of up to three selectors times pairs of small source and "
    "target trees, with and without copying or force; patch with wildcards "
    "and negative indexes are not covered.")
reg("c_diff", "C23", SPACE,
    "All ordered pairs of all small objects of 29 types, every reordering of "
    "one collection of each, and copies; the order of items inside an item "
    "which has no primary key, and items with the same primary key, count as "
    "differences.")
reg("c_diff", "C24", SPACE,
    "All ordered pairs of all small objects of 29 types in five modes, "
    "against a model of comparison; with approximate matching any outcome of "
    "pairing best matches first is accepted; items with unhashable values "
    "have no identity and are not covered.")
reg("c_diff", "C25", SPACE,
    "All pairs of small objects of 20 types times the default options and "
    "every change of one or two (thorough: any number) of six options, times "
    "the kinds of report, against a model of comparison, and against "
    "comparing objects cleaned up before.  Pairs of objects of 7 types with "
    "each of 11 overridden hooks.")
reg("c_diff", "C26", SPACE,
    "All filters of one or two (thorough: three) paths over 14 types times "
    "pairs of small objects, against a model of comparison and against "
    "comparing what the filter leaves; different choices of fields for "
    "different items of one collection, and paths into untyped values, are "
    "not covered.")
reg("c_visit", "C28", SPACE,
    "Every small object of 27 types times all options, every filter of one "
    "or two paths over 12 types, values of the wrong shape at every place, "
    "recorded conversions, and values which are nearly empty or cannot be "
    "compared, against a reference traversal; casting back "
    "is not covered where a slot without a declared type holds a record, "
    "where a value is of a subtype, and for filters with list indexes.")
reg("c_visit", "C29", SPACE,
    "Every set of up to two (thorough: three) properties of 20 kinds in "
    "plain records and collections, with and without instances, options and "
    "filters of names and wildcards; no type which refers to itself.")
reg("c_hooks", "C34", SPACE,
    "Every small object of 20 types with recording hooks under all options; "
    "filters of one or two paths (all when thorough, about 300 per type, "
    "evenly spread, when quick); stopping at every single place and pair of "
    "places (up to 60 objects per type when quick), taking one item only at "
    "the same, every hook call raising; casting the same; reflection over "
    "thirteen types with every one or two types stopped at; no unions.")
reg("c_jhooks", "C35", SPACE,
    "23 types with and without a json_data method of every signature at 26 "
    "places, with and without extraneous output, and all pairs and triples "
    "in one object; six types with conversions of their own for reading, in "
    "seven kinds of property of four kinds of holder, times pairs of ten "
    "JSON values.")
reg("c_decl", "C36", SPACE,
    "Fourteen kinds of wrong argument with every set of up to three "
    "(thorough: all) of twelve valid ones, for five property classes; forty "
    "other wrong declarations, alone and in every order of two; ten wrong "
    "record bodies over five bases; all options probed after a refusal.")
reg("c_errors", "C37", SPACE,
    "Eighteen kinds of refusal of 37 values, by eight kinds of property at "
    "eight places in a class hierarchy and every way to give the value; "
    "every operation of fourteen collection types; subtypes with pairs of "
    "values; nesting to depth three; 25 selectors; every own error of up to "
    "three named and two positional fields.")
reg("c_reports", "C38", SPACE,
    "Up to 500 (thorough: 4000) pairs, evenly spread, of the objects of each "
    "of twelve types, times five sets of options; reports of up to two "
    "(thorough: three) entries compared with each other; entries made by "
    "hand of every kind, place and form.")
reg("c_reports", "C39", SPACE,
    "All objects (quick: up to 500, thorough: 1500 per type, evenly spread) "
    "of 28 types and all pairs of each type; every key of up to three "
    "properties in every order, declared in four ways in three kinds of "
    "type; six unhashable values to depth three.")
reg("c_threads", "C31",
    "stateless exploration of thread schedules of the real code under a "
    "controlled scheduler, every schedule in a fresh process",
    "All pairs of 19 operations in two threads with one preemption before "
    "any source line of the library (quick: the first time it is reached, "
    "thorough: the first three times, and every time for two of the same "
    "operation), before any bytecode instruction that is not local for two "
    "of the same of nine operations which fill caches (thorough: for all "
    "pairs of eleven), and with two preemptions for those (quick: one of "
    "them); "
    "switches inside the standard library are not covered.")
reg("c_diff", "C27", SPACE + "; whole processes with other hash seeds",
    "All pairs of small objects of 29 types, swapped (in seven option sets), "
    "compared again, copied, and with dictionaries filled in another order; "
    "all again in processes with four (thorough: 24) hash seeds.")
