"""Writes properties.jsonl (kept as a script so the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": state, "meaning": "what the property is about",
                       "where": mech[0][1]}]
    if observe:
        a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

PROP = "normalize/property/__init__.py"
META = "normalize/property/meta.py"
REC = "normalize/record/__init__.py"
RMETA = "normalize/record/meta.py"
COLL = "normalize/coll.py"
PCOLL = "normalize/property/coll.py"
JS = "normalize/record/json.py"
PJS = "normalize/property/json.py"
SEL = "normalize/selector.py"
DIFF = "normalize/diff.py"
VIS = "normalize/visitor.py"
ID = "normalize/identity.py"
EMPTY = "normalize/empty.py"
EXC = "normalize/exc.py"
SUB = "normalize/subtype.py"
TYPES = "normalize/property/types.py"

p("C01", "Type-checked slots only ever hold conforming values",
  "Whatever sequence of constructions, assignments and deletions a record goes through, a type-checked property that reads as set holds a value of its declared type that passes its declared check. A value that already conforms is kept as the very same object (the coerce function is not consulted); any other value is replaced by exactly what the property's coerce function returns for it.",
  ["histories", "inputs"],
  "every history of construct / assign / delete / read operations on every combination of isa, coerce, check, required and default options, over values that conform, are coercible, coerce wrongly, or cannot be coerced",
  "The tests assign a handful of good and bad values to a handful of declarations; the guarantee is about every value, every declaration shape and every earlier operation on the same object.",
  [PROP, REC, PCOLL, META],
  [("value check and coercion", PROP + " Property.type_safe_value"), ("construction-time initialisation", PROP + " Property.init_prop"), ("checked assignment", PROP + " SafeProperty.__set__"), ("collection property assignment", PCOLL + " SafeCollectionProperty.__set__")],
  "the slot values of one record", "attribute reads after every operation")

p("C02", "A refused operation changes nothing and raises the right kind of error",
  "When an assignment, a deletion, or a list append, insert, extend, item or slice assignment is refused, the record or collection it was aimed at and the values passed in are left exactly as they were. A refusal is a library error that is also the matching builtin error: a type error for a value of the wrong type that cannot be coerced, a value error for a failed check or a missing required value, an attribute error for a read-only property. Deleting a slot that is not set is an attribute error.",
  ["histories", "inputs"],
  "every history of accepted and refused operations over all property kinds and collections, with the refusal placed at every position (first, middle, last item; before and after accepted operations)",
  "Tests look at the exception raised once from a fresh object; that nothing was half-applied, after any history and wherever in the value the bad part is, needs exhaustive fault placement.",
  [PROP, COLL, REC, EXC],
  [("refusal of values", PROP + " Property.type_safe_value"), ("read-only refusal", PROP + " ROProperty"), ("item coercion", COLL + " Collection.coerce_value"), ("error hierarchy", EXC)],
  "slot values and collection contents before and after a refusal", "attribute reads, iteration and the exception's classes")

p("C03", "Construction honours required, default and unknown names",
  "Constructing a record succeeds only if every required property ends up with a value; a property that is not passed takes its default (a default function is called afresh for each object, and receives the object if it asks for it), and one without a default stays unset. A passed value always wins over the default, the keyword form, the positional dictionary form and any argument order build equal objects, and a name that is not a property is refused.",
  ["inputs", "configurations"],
  "every subset of arguments, in every order and both calling forms, over declarations covering each combination of required, default (constant, function, method) and type options",
  "The number of declaration and argument combinations is far beyond what example tests list, and sharing of default results between objects shows only with several objects alive.",
  [REC, PROP, RMETA],
  [("constructor", REC + " Record.__init__"), ("default evaluation", PROP + " Property.get_default / init_prop"), ("which properties are initialised eagerly", RMETA + " eager_properties")],
  "properties set on the new object", "attribute reads after construction")

p("C04", "Lazy values are computed once, on first read; read-only values never change",
  "A lazy property's default is not evaluated before its first read; that read evaluates it exactly once, type-checks it and keeps it for every later read, while a value given at construction or assigned before the read means it is never evaluated. A read-only property takes its value at construction (or lazily) and afterwards refuses every assignment and deletion, keeping its value.",
  ["histories"],
  "every history of construction forms, reads, writes, deletes and observing operations (printing, comparing, copying, marshalling) over lazy, read-only, and lazy read-only properties, with and without type declarations",
  "Evaluation counts depend on the order of reads, writes and observers in a history; tests use one or two fixed orders.",
  [PROP],
  [("lazy getter", PROP + " LazyProperty.__get__ / LazySafeProperty.__get__ / ROLazyProperty.__get__"), ("read-only setter and deleter", PROP + " ROProperty"), ("no eager evaluation", PROP + " LazyProperty.init_prop / eager_init")],
  "the slot and the number of evaluations of its default", "call counts of the default function and attribute reads")

p("C05", "Null-tolerant properties read as their null value when unset",
  "A property declared with the null-tolerant compatibility option reads as its configured null value whenever it is not set, instead of raising. Assigning the null value (or None) clears such a property if its type would not accept that value, and any other assignment obeys the same type and check rules as an ordinary property; clearing an already clear property is harmless.",
  ["histories", "configurations"],
  "every history of construct / assign value / assign null / delete / read over every declaration variant (explicit null, null implied by a falsy default, typed and untyped, inside JSON records)",
  "The compatibility property combines default handling, coercion failure and deletion; only sequences of them reveal wrong transitions.",
  [PROP, META],
  [("null-tolerant property", PROP + " V1Property"), ("implied by falsy defaults", META + " looks_like_v1_none / has")],
  "the slot: unset or set to a value", "attribute reads after every operation")

p("C06", "Safe-navigation placeholders follow the declared types",
  "The auxiliary accessor of a property returns the value when it is set, and otherwise a false placeholder that can be navigated, by attribute and by subscript to any depth, exactly where the declared types allow it. A name or operation that no declared type has is refused with the attribute or type error it corresponds to, an undeclared type allows anything, placeholders cannot be assigned to, and navigating never changes the record. An accessor never takes the place of a property or method declared under its name.",
  ["inputs", "programs"],
  "every access path up to a bounded length over record types with scalar, record, list, dictionary, union, untyped and self-referential properties, from every set / unset combination",
  "Placeholders are shared, cached per type set and built up lazily, so behaviour may depend on earlier navigations; tests walk a few fixed paths.",
  [EMPTY, PROP],
  [("placeholder navigation", EMPTY + " EmptyVal"), ("shared placeholder cache", EMPTY + " placeholder"), ("auxiliary accessor", PROP + " EmptyAuxProp / aux_props")],
  "the library-wide placeholder cache", "results of attribute and item access on placeholders")

p("C07", "A property's behaviour depends only on its options",
  "Declaring a property with a set of options gives it all the behaviours those options describe (type checking, laziness, read-only, JSON naming, collection typing, comparison clean-up, null tolerance), whatever order the options are written in and whichever of the equivalent ways they are asked for. The outcome does not depend on which other properties, in whichever order, the program declared before.",
  ["programs", "configurations"],
  "every order of declaring properties with different option combinations in one process, each followed by a behavioural probe of the declared properties",
  "Property classes are composed on demand and kept in a library-wide registry, so a declaration can depend on all earlier ones; a test process sees just one order.",
  [META, PROP],
  [("option to class selection", META + " has"), ("class composition", META + " create_property_type_from_traits"), ("registry", META + " PROPERTY_TYPES / DUCKWARGS"), ("derived property types", PROP + " make_property_type")],
  "the library-wide registry of composed property types", "behaviour of declared properties")

p("C08", "Record types inherit properties without affecting each other",
  "A record subclass has all properties of its base with the same behaviour, plus its own; a redefined property behaves as redefined in the subclass (and its further subclasses) and as originally declared in the base. Declaring or using a subclass never changes how the base or a sibling type behaves, and the type's properties are reported by their names.",
  ["programs", "histories"],
  "every small class hierarchy built by adding, overriding or leaving each property at each level, in every declaration order, each type probed by construction, assignment, printing, comparison and marshalling",
  "The interaction is between several classes sharing property objects; the tests declare one fixed hierarchy.",
  [RMETA, PROP, REC],
  [("collecting base properties", RMETA + " RecordMeta.__new__"), ("binding names", PROP + " Property.set_name / bind")],
  "the per-type property tables", "behaviour of instances of every type in the hierarchy")

p("C09", "A typed list behaves as a Python list of coerced items",
  "Under every sequence of list operations, a typed list has the same contents, return values and refusals as a Python list receiving the same operations, where every item that goes in is first coerced to the item type (items already of the type are kept as they are). It can be built from any list, tuple, iterator, mapping values or other list, and every item in it always has the item type.",
  ["histories", "inputs"],
  "every sequence of list operations (append, extend, insert, pop, remove, index, count, reverse, sort, add, get/set/delete of items and slices, iteration, membership, length) with all small indices, slices and items, from all small initial contents",
  "Index and slice corner cases multiply with contents and item conformity; the tests try a few calls on one list.",
  [COLL],
  [("list operations", COLL + " ListCollection"), ("item coercion", COLL + " Collection.coerce_value"), ("construction", COLL + " ListCollection.coll_to_tuples / tuples_to_coll")],
  "the contents of one list", "return values, exceptions and contents after every operation")

p("C10", "A typed dictionary behaves as a Python dict of coerced values",
  "Under every sequence of dictionary operations, a typed dictionary has the same contents, return values and refusals as a Python dict receiving the same operations, where every value that goes in is first coerced to the item type. It can be built from a mapping, a sequence (numbered keys) or an iterator of pairs, and every value in it always has the item type.",
  ["histories", "inputs"],
  "every sequence of dictionary operations (get/set/delete item, pop, popitem, update in all its forms, clear, keys, values, items, membership, length, iteration) over small key and value sets, from all small initial contents",
  "The class is described as largely untested by its own documentation; only exhaustive small histories cover its operation combinations.",
  [COLL],
  [("dictionary operations", COLL + " DictCollection / KeyedCollection"), ("item coercion", COLL + " Collection.coerce_value"), ("construction", COLL + " DictCollection.coll_to_tuples / tuples_to_coll")],
  "the contents of one dictionary", "return values, exceptions and contents after every operation")

p("C11", "Equality is an equivalence that agrees with contents and with hashing",
  "Two records compare equal exactly when they have the same type and, in every property not marked extraneous, are both unset or hold equal values; collections compare equal exactly when their item types and contents (in order, for lists) are equal, and a plain list or dict exactly when a collection can be made of it and that one does. Equality is reflexive, symmetric and transitive, inequality is its exact negation, and equal hashable records have equal hashes.",
  ["inputs", "histories"],
  "all pairs and triples of reachable states of record types with scalar, nested, collection, extraneous, lazy and unset properties, with and without primary keys",
  "Equality laws quantify over pairs and triples of objects; tests compare a few hand-made pairs.",
  [REC, COLL, ID],
  [("record equality and hash", REC + " Record.__eq__ / __ne__ / __hash__"), ("collection equality", COLL + " Collection.__eq__ / __ne__"), ("primary key", ID + " record_id")],
  "slot values and collection contents", "results of ==, != and hash()")

p("C12", "Printing a record gives source that rebuilds it",
  "The printed representation of any record or collection is a Python expression which, evaluated with the type names in scope, yields an object of the same type equal to the original with the same set of assigned properties, including nested records, typed lists and dictionaries (plain and JSON), extra properties on collections, and field selectors. Printing does not change the object.",
  ["inputs", "histories"],
  "every reachable object of record and collection types with all property kinds, small value alphabets including quotes, brackets, braces and parentheses inside strings, and nesting",
  "Representations are composed by text substitution, so failures depend on the particular characters and combination of parts; tests check a few literals.",
  [REC, COLL, JS, SEL],
  [("record representation", REC + " Record.__repr__"), ("collection representation", COLL + " ListCollection.__repr__ / DictCollection.__repr__"), ("JSON collections", JS + " JsonRecordList.__repr__ / JsonRecordDict.__repr__"), ("selectors", SEL + " FieldSelector.__repr__ / MultiFieldSelector.__repr__")],
  None, "eval(repr(x)) compared with x")

p("C13", "Pickling and copying preserve objects",
  "Pickling (with every protocol) and unpickling, shallow copying and deep copying any record, collection, or selector yields an object of the same type that equals the original, has the same properties set (including extra properties on collections) and behaves the same under further operations. Deep copies and unpickled objects share no mutable state with the original: later changes to one never show in the other.",
  ["inputs", "histories"],
  "every reachable object of all record and collection kinds times every pickle protocol and copy function, followed by every single mutation of the original or of the copy",
  "State can be lost per property kind, per protocol and per collection kind; tests round-trip two or three objects.",
  [REC, COLL, SEL, JS],
  [("record state", REC + " Record.__getnewargs__ / __getstate__ / __setstate__"), ("generic collection pickling", COLL + " _Generic.__reduce__ / _GenericPickler"), ("selector", SEL + " FieldSelector.__getnewargs__")],
  None, "equality and behaviour of the copy")

p("C14", "JSON round trips preserve records",
  "For record types whose properties have invertible JSON forms, converting a record to JSON data and reading it back with the same type gives an equal record with the same properties set, including nested records, typed lists and dictionaries, and, for JSON records with extraneous output requested, unknown keys. The JSON data contains only standard JSON values (integers beyond 2**50 as their decimal text), and it survives being written to and parsed from text.",
  ["inputs", "histories"],
  "every reachable object of plain and JSON record types with scalar, date, nested, list, dictionary, null-tolerant, lazy and renamed properties over small value alphabets",
  "The set of type shapes times set/unset slots times values is combinatorial; tests convert a few documents.",
  [JS, PJS],
  [("marshal out", JS + " to_json / _json_data / JsonRecord.json_data"), ("marshal in", JS + " from_json / json_to_initkwargs"), ("collections", JS + " JsonRecordList / JsonRecordDict")],
  None, "from_json(type, to_json(x)) compared with x")

p("C15", "JSON keys map to properties as declared; unknown keys kept, input untouched",
  "Reading JSON takes each property's value from its declared JSON key through its input function, never reads or writes a property declared to have no JSON key, and for JSON records keeps exactly the keys no property claims (merged back, without overriding a property, when extraneous output is requested). Writing uses the declared key and output function and omits unset properties, and extraneous ones unless requested. Arguments given besides a document take precedence over it, and items which already are of the item type are kept as they are. Text, bytes and already-parsed forms of a document give equal records, and the input structure is never modified nor shared through the unknown keys.",
  ["inputs", "configurations"],
  "every declaration combination of JSON name (default, renamed, swapped, none), input and output functions and extraneous flag, times every small document over known, renamed, colliding and unknown keys, in every encoding",
  "Name collisions and key subsets are combinatorial; tests use one class and a few documents.",
  [JS, PJS],
  [("key mapping in", JS + " json_to_initkwargs"), ("key mapping out", JS + " to_json / JsonRecord.json_data"), ("declaration", PJS + " JsonProperty"), ("decoding", JS + " _decode_and_parse_json")],
  None, "the record built, the JSON written, and the input afterwards")

p("C16", "JSON errors say where in the document the problem is",
  "When reading a JSON document fails because a value nested in it cannot be converted, the error is a conversion error carrying the path (keys and indexes, in document terms) of the innermost JSON record or collection member in which conversion failed, and that path resolves in the input document. A document without a bad value never fails.",
  ["inputs", "fault_sequences"],
  "every small document shape over nested JSON records, lists and dictionaries, with one bad value placed at every position",
  "The path is assembled while errors unwind through each nesting level; tests check one or two positions.",
  [JS],
  [("path assembly", JS + " _box_ingress_error"), ("per-item wrapping", JS + " JsonRecordList.json_to_initkwargs / JsonRecordDict.json_to_initkwargs / json_to_initkwargs")],
  None, "the error path of the raised exception")

p("C17", "Schema-less JSON records expose every key and give the document back",
  "A schema-less JSON record built from any JSON object offers each key as an attribute (with camel-case keys under their underscored names in the converting flavour), with nested objects and lists of objects offered the same way, and a key that is not there is an attribute error. Its JSON data equals the original document (for the converting flavour: when its keys are camel-case without underscores), and setting or deleting an attribute is reflected in attribute reads and JSON data.",
  ["inputs", "histories"],
  "every small JSON document over a key alphabet with and without case changes, nesting up to three levels, and short histories of attribute operations, for both flavours",
  "Key conversion must be undone exactly for every key and level; tests check one document.",
  [JS],
  [("schema-less record", JS + " AutoJsonRecord"), ("key conversion", JS + " convert_json_key_in / convert_json_key_out"), ("non-converting flavour", JS + " NCAutoJsonRecord")],
  "the unknown keys of the record", "attribute reads and JSON data")

p("C18", "Field selectors read, write, create and delete exactly the place they name",
  "After writing through a field selector, reading through it returns the (coerced) value, and nothing outside the named place has changed; creating writes do the same while filling in missing records, dictionary items and the next item of a list on the way; deleting makes the place read as missing and changes nothing else. A wildcard applies to every item of a collection, reading skips items that lack the place unless all do, and a place that does not exist (or cannot be created) is reported with the library's selector error.",
  ["inputs", "histories"],
  "every selector up to a bounded length over attributes, indexes, keys and wildcards, times every small object tree of records, lists and dictionaries with parts missing, times every operation and pair of operations",
  "Each selector element combines with each container kind and each missing-part position; tests exercise some dozens of combinations.",
  [SEL],
  [("read", SEL + " FieldSelector.get / get_or_none"), ("write", SEL + " FieldSelector.put"), ("creating write", SEL + " FieldSelector.post"), ("delete", SEL + " FieldSelector.delete")],
  "an object tree", "the whole tree before and after each operation")

p("C19", "Selector path text converts back to the same selector",
  "The path text of every field selector made of attribute names, arbitrary string keys, list indexes and wildcards parses back to an equal selector, and different selectors have different path texts. The path text of a multi-field selector parses back to one that selects exactly the same fields.",
  ["inputs"],
  "every selector up to a bounded length over an alphabet of attribute names, keys containing each special character (quotes, backslashes, brackets, dots, bars, spaces, unicode, empty), indexes and wildcards, and every small set of such selectors",
  "Quoting errors need particular characters in particular positions and combinations; tests try a few paths.",
  [SEL],
  [("formatting", SEL + " _fmt_selector_path / _fmt_mfs_path"), ("parsing", SEL + " _scan_selector_path / _scan_mfs_path")],
  None, "from_path(x.path) compared with x")

p("C20", "Field selectors behave as immutable-looking sequences with a consistent order",
  "Field selectors accept exactly strings, integers and the wildcard, and length, indexing, slicing, concatenation and prefix tests agree with the underlying element sequence, without changing or aliasing the operands (the explicitly extending operations change only the selector they are called on). Equality is equality of element sequences, with equal hashes for equal selectors, and comparable selectors are totally ordered lexicographically with shorter prefixes first; sorting puts list indexes in increasing order.",
  ["inputs", "histories"],
  "all pairs and triples of selectors up to a bounded length over a small element alphabet, all slices, and all short histories of extending operations with aliases alive",
  "Ordering and aliasing laws quantify over pairs and triples; tests list a few examples.",
  [SEL],
  [("sequence operations", SEL + " FieldSelector.__add__ / __getitem__ / __len__ / startswith / extend / add_property / add_index / add_full_collection"), ("ordering", SEL + " FieldSelector.__eq__ / __lt__"), ("validation", SEL + " FieldSelector.__init__")],
  None, "results compared with plain Python sequences")

p("C21", "Multi-field selectors select exactly the union of their fields",
  "A multi-field selector built from any set of field selectors and other multi-field selectors, in any order, enumerates exactly the fields of their union (a field covering others subsumes them), and its membership, subscript and truth tests agree with that union. Reading an object through it gives a new object with exactly the selected parts that exist in the original, equal to the original's (anything else being as in a newly made object), sharing no mutable state with it and leaving it unchanged.",
  ["inputs"],
  "every set of up to three selectors over a small alphabet, in every order and grouping, times every small object tree",
  "The selector is a tree merged from its parts; wrong merging shows only for particular overlaps and orders.",
  [SEL],
  [("merging", SEL + " MultiFieldSelector.__init__"), ("enumeration, membership, subscript", SEL + " MultiFieldSelector.__iter__ / __contains__ / __getitem__"), ("filtered copy", SEL + " MultiFieldSelector.get")],
  None, "results compared with a set-of-paths model")

p("C22", "Multi-field patch and delete touch all selected fields and nothing else",
  "Patching a target from a source through a multi-field selector makes every selected field of the target equal to the source's (a selected attribute the source lacks becomes absent; a selected list item or dictionary key it lacks is refused with nothing changed) and leaves every other field of the target, and the whole source, as it was; with copying requested the two share no mutable state afterwards. Deleting through it removes every selected field and nothing else; unless forced, a selected attribute that is missing makes it fail without changing anything.",
  ["inputs", "histories"],
  "every set of up to three selectors (attributes, several list indexes, dictionary keys) times all pairs of small source and target trees",
  "Several selected places interact (list items shift when deleted); tests patch and delete one or two places.",
  [SEL],
  [("patch", SEL + " MultiFieldSelector.patch"), ("delete", SEL + " MultiFieldSelector.delete")],
  "target and source trees", "both trees before and after")

p("C23", "A comparison is empty exactly when the two sides are equivalent",
  "An object compared with itself, an equal copy, or an object equal to it up to the default clean-ups (whitespace and unicode normal form of text) and the order of top-level collection items yields no difference. If a comparison yields no difference, the two are equal up to those clean-ups and up to the order or keys of items of collections. This holds for nested records, lists and dictionaries of scalars and of records, with or without primary keys, with approximate matching on or off.",
  ["inputs"],
  "all pairs of reachable states of record types with scalar, nested, list and dictionary properties, duplicates, unset slots and different primary key declarations",
  "The statement is about all pairs of objects; tests compare a handful.",
  [DIFF, ID],
  [("record comparison", DIFF + " compare_record_iter"), ("record collections", DIFF + " compare_collection_iter"), ("scalar collections", DIFF + " compare_list_iter / compare_dict_iter"), ("item identity", ID + " record_id")],
  None, "the list of differences")

p("C24", "Every reported difference is real, correctly placed, and none is missed",
  "Each reported difference names places that exist in the respective object: a modified place holds different values (or values of different types) on the two sides, a removed place exists only in the base and an added place only in the other, with the opposite side naming where it is missing from. Together the differences account for every slot and item in which the objects differ: with approximate matching off they are exactly the slot-by-slot, item-by-item (paired by primary key or value) differences, each reported once.",
  ["inputs"],
  "all pairs of reachable states of record types with scalar, nested, list and dictionary properties, with options for recursion, approximate matching, unchanged and moved reporting",
  "Differences are produced by several cooperating functions for each container kind; tests check literal outputs for a few pairs.",
  [DIFF],
  [("record comparison", DIFF + " compare_record_iter"), ("record collections", DIFF + " compare_collection_iter / _fuzzy_match"), ("scalar collections", DIFF + " compare_list_iter / compare_dict_iter"), ("dispatch", DIFF + " _diff_iter")],
  None, "the list of differences, with their selectors resolved in both objects")

p("C25", "Comparison options ignore exactly what they say",
  "Each comparison option suppresses exactly the differences it describes and no others: whitespace, letter case, unicode normal form, empty slots, empty collection items, extraneous properties, and declared comparison clean-up functions. Asking for unchanged or moved items to be reported only adds reports of those kinds, each for a slot or item that both sides have with the same value (for items of a collection: that are the same item by primary key or value), at the same or at another place. The hooks which a subclass of DiffOptions overrides (items_equal, normalize_..., value_is_empty, record_id) are what every value, slot and item compared goes through, with the slot, object or key it belongs to.",
  ["inputs", "configurations"],
  "every combination of options times all pairs of values over a text alphabet with whitespace, case and normal-form variants, empty values and unset slots, in slots, lists, dictionaries and nested records",
  "Options interact (clean-ups are chained); tests turn on one or two options on one pair of objects.",
  [DIFF],
  [("options", DIFF + " DiffOptions"), ("text clean-up", DIFF + " DiffOptions.normalize_text / normalize_val / normalize_object_slot / normalize_item"), ("comparison", DIFF + " compare_record_iter / compare_collection_iter")],
  None, "the list of differences compared with a reference model")

p("C26", "Filtered comparison reports exactly the differences inside the filter",
  "Comparing with a field filter looks only at the selected fields: it reports the same differences as comparing copies of the two objects from which everything outside the filter has been removed, so changes outside the filter are never reported and differences inside it always are (items of a collection whose primary key is not entirely inside the filter are matched by their selected fields). A filter that selects everything changes nothing.",
  ["inputs", "configurations"],
  "every filter of up to three field paths times all pairs of small objects with nested records, lists and dictionaries",
  "A filter is applied at every level in a different way (slots, item identity, item values); tests use a few filters.",
  [DIFF, SEL, ID],
  [("filter test", DIFF + " DiffOptions.is_filtered / id_args"), ("filtered identity", ID + " record_id"), ("sub-filter lookup", SEL + " MultiFieldSelector.__getitem__")],
  None, "the list of differences compared with the unfiltered comparison of pruned objects")

p("C27", "Swapping the two sides of a comparison mirrors the result",
  "With approximate matching off, comparing B with A reports exactly the differences of comparing A with B with the two places exchanged and added exchanged with removed. The same objects compared twice, or compared after being copied, give the same set of differences; comparing never depends on hash order.",
  ["inputs"],
  "all ordered pairs of reachable states of record types with scalar, nested, list and dictionary properties and all option settings, under several hash seeds",
  "Symmetry is a relation between two runs over all pairs; tests run one direction.",
  [DIFF],
  [("record comparison", DIFF + " compare_record_iter"), ("collections", DIFF + " compare_collection_iter / compare_list_iter / compare_dict_iter")],
  None, "two lists of differences")

p("C28", "Visiting to plain data and casting back preserves objects",
  "Visiting a record yields plain data containing exactly its set, non-extraneous, non-None (unless asked otherwise) properties, recursively through records, lists and dictionaries as the declared types describe, calling the conversion once per scalar slot with its property; casting that data back to the type yields a record equal to the original. With a filter, both directions cover exactly the selected fields, and the visited object is not changed.",
  ["inputs", "configurations"],
  "every reachable object of record types with scalar, nested, list, dictionary and extraneous properties and collections with properties, times visitor options and filters",
  "The traversal mixes properties, collections, filters and options; tests cast one or two structures.",
  [VIS],
  [("traversal", VIS + " VisitorPattern.map / map_record / map_collection / map_prop"), ("out", VIS + " unpack / apply / aggregate / reduce"), ("in", VIS + " grok / reverse / collect / produce")],
  None, "plain data compared with a reference traversal, and the cast-back object")

p("C29", "Reflecting over a type describes exactly its declared properties",
  "Reflecting over a record type or instance gives its name, every non-extraneous (or, on request, every) property with its name and declared type, described recursively for record types, and the item type of each collection. The result depends on the type only, never on values held by instances, and honours a field filter of property names and wildcards.",
  ["programs", "configurations"],
  "every small record type built from scalar, union, nested, list and dictionary properties, extraneous or not, times options and instances",
  "Types are programs; tests reflect over two of them.",
  [VIS],
  [("type traversal", VIS + " scantypes / propinfo / itemtypes / typeinfo"), ("shared traversal", VIS + " map / map_record")],
  None, "the description compared with the declarations")

p("C30", "Observing operations do not change or alias objects",
  "Comparing, printing, hashing, marshalling, copying, visiting, reading through selectors, and navigating placeholders leave every object they are given equal to what it was before, with the same properties set, no matter in which order or how often they are used, and give the same answer when repeated. Plain data produced by marshalling and visiting, and filtered copies, can be changed without affecting the record (a visit passes opaque values of untyped properties through as they are).",
  ["histories", "inputs"],
  "every sequence of up to three observing operations interleaved with mutations, on reachable objects of all record and collection kinds",
  "Aliasing and caching show only when an observation is followed by a mutation and another observation; tests rarely look at an object after observing it.",
  [REC, COLL, JS, DIFF, VIS, SEL, EMPTY],
  [("observers", "normalize/record/__init__.py, normalize/record/json.py, normalize/diff.py, normalize/visitor.py, normalize/selector.py")],
  "all slots of the object and of the produced data", "object state before and after every observation")

p("C31", "Threads working on separate objects do not disturb each other",
  "When several threads declare types, and construct, read, marshal, compare, visit, copy and print their own objects of the same record types, each gets the result it would get running alone, however the threads are interleaved, including on the first use of a type when library-wide caches are being filled.",
  ["schedules"],
  "every interleaving of two threads up to a preemption bound, with preemption possible at every executed source line of the library, over pairs of first-use and repeated operations on shared types",
  "Tests are single-threaded, and a free-running threaded test samples few schedules.",
  [JS, EMPTY, COLL, SEL, VIS, DIFF],
  [("marshalling caches", JS + " _json_data"), ("placeholder cache", EMPTY + " placeholder"), ("generic type cache", COLL + " _make_generic"), ("everything-selector cache", SEL + " MultiFieldSelector.complete_mfs")],
  "library-wide caches", "per-thread results")

p("C32", "Subtypes accept exactly the values their condition accepts",
  "A value is an instance of a subtype exactly when it is an instance of the base type for which the condition holds (a condition that raises counts as not holding), for subtypes of any type including records, collections and other subtypes. Calling a subtype returns conforming values unchanged and otherwise the conforming result of its coerce function, or refuses; properties and collections typed by a subtype enforce exactly that.",
  ["inputs", "programs"],
  "every chain of up to three subtypes over several base types and conditions, times values at and around the condition boundary, through direct calls, properties and typed lists",
  "Combinations of conditions, base types and coercions at each level are not enumerated by tests.",
  [SUB, PROP],
  [("instance test", SUB + " subtype.__instancecheck__"), ("construction", SUB + " subtype.__new__"), ("property integration", PROP + " Property.type_safe_value")],
  None, "isinstance, constructor results and slot values")

p("C33", "The predefined typed properties hold their types",
  "The predefined integer, number, float, string, date and datetime properties hold only values of their type: conforming values are kept, convertible ones (numeric text, ISO date and time text, dates for datetimes and the reverse) are converted to the value they denote, and others are refused with a type error. Date and datetime properties write ISO text to JSON that reads back to the same value (to the second).",
  ["inputs"],
  "every predefined property kind and its JSON and list/dictionary combinations times a value alphabet covering every input type, text format and boundary",
  "Each property kind times each kind of input is a matrix that tests sample sparsely.",
  [TYPES, SUB, PROP],
  [("predefined types", TYPES), ("conversion functions", TYPES + " coerce_datetime / coerce_date / coerce_number"), ("derived property types", PROP + " make_property_type")],
  None, "slot values and JSON data")

p("C34", "Hooks of custom visitors run exactly once per selected place",
  "A VisitorPattern subclass's hooks (unpack, apply, aggregate, reduce; grok, reverse, collect, produce; scantypes, propinfo, itemtypes, typeinfo) are called exactly once for every selected place of the object, data or type visited, with the value there and a visitor which tells that place, and what they return is what is combined. StopVisiting, raised, returned or returned by class, or an opaque type prunes exactly that subtree and nothing else. What a hook raises reaches the caller as it is, and a property which cannot be read is reported as VisitorPropError naming its place (its AttributeError means no value).",
  ["inputs", "faults"],
  "every small object of every type universe member, every filter of one or two paths, every option set, every one or two places where a hook stops and every hook call which raises",
  "The built-in patterns use few of the hooks, and tests have one custom visitor; places, stops and faults multiply with the shapes of objects.",
  [VIS],
  [("visiting", VIS + " VisitorPattern.visit / map_record / map_collection / map_prop"), ("casting", VIS + " VisitorPattern.cast"), ("reflecting", VIS + " VisitorPattern.reflect"), ("the place", VIS + " Visitor.field_selector / push / pop / copy")],
  None, "the sequence of hook calls and the result of visit, cast and reflect")

p("C35", "JSON conversions which types define themselves are honoured everywhere",
  "A value whose type has a json_data method (of any signature: with or without extraneous, positional, keyword-only or **kwargs) is written as what that method returns, once, wherever it is in the object (slot, list, dictionary, nested records, properties with or without a json_out), being passed extraneous if and only if it takes it; a json_out function takes precedence over it. A type which defines from_json is given the JSON value wherever a property or JSON collection item of that type is read, unless the property has a json_in function.",
  ["inputs"],
  "every signature of json_data times every place in an object times both settings of extraneous, all pairs and triples in one object and repeated calls; every from_json type times property kind, holder and JSON value",
  "There are two tests of json_data, at one place each; caching by type makes the outcome depend on what was converted before.",
  [JS, PJS],
  [("json_data dispatch and its cache", JS + " _json_data / to_json"), ("from_json dispatch", JS + " json_to_initkwargs / from_json"), ("per-property functions", PJS + " JsonProperty.to_json / from_json")],
  None, "to_json / json_data() output, the calls of the methods, slot values after from_json")

p("C36", "Declarations which cannot work are refused and leave no trace",
  "A property declaration with an argument that no property type has, an unknown trait, a default or compare_as function wanting arguments, coerce without a type, lazy=False, a mutable v1_none, collections without an item type, of the wrong kind or of the names of others, or positional arguments raises the documented error when it is written, whatever valid arguments it has besides. So do record types with reserved names, primary keys which are not their properties or clashing bases, and subtypes of non-types. The refusal changes nothing: existing types and later declarations work as if it had never been written.",
  ["inputs", "histories"],
  "every wrong argument times every set of valid ones times property class; every pair of wrong declarations in both orders; every wrong record body over every base; every option set declared and probed before and after a refusal",
  "Property types are composed on demand in global tables, so that what a refused declaration leaves there shows only in declarations after it.",
  [META, PROP, RMETA, PCOLL, SUB, COLL],
  [("choosing the property type", META + " has / create_property_type_from_traits"), ("argument checks", PROP + " __init__ of the property classes"), ("record bodies", RMETA), ("collection declarations", PCOLL + "; " + COLL)],
  None, "exceptions at declaration and the behaviour of types declared before and after")

p("C37", "Errors identify what was refused, where and why",
  "Every refusal of a value by a property, collection, subtype, record constructor or placeholder raises the documented normalize exception, which is also the corresponding built-in one (ValueError, TypeError, AttributeError, KeyError), and whose attributes are the very property, type, value and underlying exception concerned, down to the innermost value which is wrong. Its message names the property in full (by the class which declares it), shows the value, and quotes the underlying error, whatever the value looks like. Selectors' errors say which name or index could not be found.",
  ["inputs", "faults"],
  "every kind of refusal times every way of giving the value, property kind, place in the class hierarchy, nesting and a value alphabet including text which looks like formatting directives",
  "Tests check that something is raised, rarely what it says, and never for values which interfere with the formatting of messages.",
  [EXC, PROP, COLL, SUB, REC, SEL, EMPTY],
  [("structured exceptions", EXC + " StringFormatException"), ("slot errors", PROP + " type_safe_value"), ("item errors", COLL + " coerce_value / coll_to_tuples"), ("selector errors", SEL)],
  None, "exception class, attributes, str() and repr()")

p("C38", "Difference reports hold, show and convert exactly what was found",
  "A report (Diff, or JsonDiff for JSON records) holds the same entries however the comparison is asked for: by function, method, iterator, keyword options or an options object. Its text, and that of its entries, names the types compared and every place with its kind of difference. Copies, pickles, visited forms and the JSON form of a report read back as an equal report of the same type and share nothing with it that can be changed, and entries can be made by kind name, number or value, while wrong kinds and places are refused.",
  ["inputs", "histories"],
  "every pair of small objects times options, every report of up to three entries of every kind and place, every way of making and converting them",
  "Reports are records themselves, with their own property types, enumerations and JSON converters, so all of the library meets in them; tests look at a few of their strings.",
  [DIFF, JS, COLL, "normalize/property/types.py"],
  [("reports and entries", DIFF + " Diff / DiffInfo / DiffTypes"), ("JSON forms", JS + " JsonDiff / JsonDiffInfo"), ("asking for comparisons", DIFF + " diff / diff_iter; normalize/record/__init__.py Record.diff / diff_iter")],
  None, "entries, text and JSON forms of reports")

p("C39", "Primary keys identify records",
  "The primary key of a record is the tuple of the values of the properties declared as its key, in the order declared and however declared, or if there are none, of all its properties not marked extraneous; records in it are replaced by their own primary keys and collections without a key by those of their items, regardless of order for dictionaries. Two records of one type have equal primary keys exactly when those parts are equal, and their hashes agree with that. Their short text shows the key, and a key holding an unhashable value is refused with an error naming the property.",
  ["inputs", "histories"],
  "all objects of every small type and all pairs of each type; every key of up to three properties in every order and way of declaring",
  "Identity is computed recursively by type, with cases for unions, collections and missing values; tests compute a few keys.",
  [ID, REC, RMETA, COLL],
  [("identity", ID + " record_id"), ("declared keys", RMETA + " primary_key"), ("use of keys", REC + " Record.__pk__ / __hash__ / __str__")],
  None, "__pk__, hash(), str(), ==")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
import re
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    n = len(re.findall(r"[.](\s|$)", x["statement"]))
    if n > 3: print(x["id"], n)
