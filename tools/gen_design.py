import json,sys,os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from mc.registry import CHECKS
D={
'C01':("Histories of construct/assign/delete/read over every declaration variant (isa single/tuple/subclass-typed/record/collection, coerce good/bad/raising/None-returning, check, required, defaults). Model: `slots.Model` computes set/unset, the exact object held (identity for conforming values), coerce call counts and the refusal class.","after every operation: every slot read, identity, calls of coerce"),
'C02':("Same histories with the refusal placed at every position, plus list/dict operations with one bad item at every index (append, insert, extend from list/tuple/generator/other list, item and slice assignment, construction), and properties holding collections.","full observation of record, collection and arguments before = after; exception is a library error and the matching builtin"),
'C03':("All subsets and orders of arguments, keyword/positional forms, for pairs and triples of declarations; default functions with call counters; several objects alive.","which slots are set to what; fresh defaults; refusals"),
'C04':("Histories over lazy, read-only and lazy read-only slots interleaved with observers (repr, ==, hash, copy, pickle, json, diff, visit).","evaluation counts and values after every step"),
'C05':("Histories over null-tolerant declarations, explicit and implied, typed and not, in plain and JSON records.","the slot model with its null value"),
'C06':("All access paths (attribute, aux attribute, subscript, slice, call, arithmetic refusal) to depth 3/4 from every property of a universe of mutually recursive types; all pairs (earlier path, path) on fresh types, because placeholders are cached per type set.","a model of which names/operations the declared types have"),
'C07':("All subsets of options on eight kinds of property, each: alone in a fresh process in all orders of writing; after each other combination; all in one process in two orders. Behaviour is probed by a battery (types, laziness, read-only, JSON name, comparison, null value).","options → behaviour table independent of class names"),
'C08':("Two-level hierarchies with redefinition of a property by each of eleven variants (121 pairs × with/without further subclass, sibling), in all orders of declaration and first use; collections and mix-ins.","every class is probed like a freshly declared flat class"),
'C09':("All operations × small indexes/slices/items from all contents up to length 2–4, and all sequences of 2–4 operations, for 16 kinds of list.","a Python list of coerced items (contents, return values, exception kinds)"),
'C10':("As C09 for 13 kinds of dictionary.","a Python dict of coerced values"),
'C11':("All ordered pairs (and transitivity over triples through classes) of all small objects of 26 types, pairs across types, objects after every single mutation.","equality of trees without extraneous slots; hash agreement"),
'C12':("repr of all small objects, all strings of special characters in every kind of place, selectors, comparison results; 13 kinds of property × 12 values that may be taken for none; evaluated back.","tree of the result = tree of the original"),
'C13':("All small objects × six pickle protocols, copy, deepcopy × every single mutation of either side; pickles read by another process.","trees of both sides; no sharing"),
'C14':("All small objects of 15 types and all type shapes (record kind × container kind × JSON name, 3–4 levels) through json_data/to_json/text/from_json.","original tree; JSON data compared with the model's"),
'C15':("All pairs of 34 declarations × 34 documents in four encodings (dict, text, bytes…), JSON options on 15 kinds of property, unknown keys of every shape and place.","a model of key → slot and slot → key; the input document unchanged"),
'C16':("One bad value of several kinds at every position of all documents containing every kind of place.","the path of the error = the place of the innermost member; it resolves in the document"),
'C17':("All JSON objects over up to five keys, two values deep or three levels nested, all keys to 3–4 characters, all histories of 2–3 attribute operations, both flavours.","the document and a key conversion model"),
'C18':("All selectors up to length 3–4 × all small trees × get/put/post/delete, and all pairs of operations; selectors whose place cannot exist.","operations on trees with the declared schema: new tree, value, or refusal with the position"),
'C19':("All selectors over a 17/34 element alphabet with every special character, sets of selectors, all tries of given keys; text → selector → text.","the element sequence; injectivity of the text over the whole enumeration"),
'C20':("All sequences of acceptable and unacceptable elements, all pairs (order, equality, prefix, concatenation), all slices, histories of extending operations on a growing set of aliases.","tuples of elements"),
'C21':("All sets of up to three selectors in every order and grouping × probes; `get` on all small trees.","sets of paths / pruned trees"),
'C22':("All such sets × pairs of source and target trees, with copying and forcing.","tree model of patch/delete; sharing"),
'C23':("All ordered pairs of small objects of 29 types; every reordering of a collection; copies.","the comparison model's verdict empty/non-empty and an independent equivalence"),
'C24':("All ordered pairs in five modes (default, everything reported, no approximate matching, duck typing …).","the exact set of reports; for approximate matching, any outcome of best-first pairing"),
'C25':("Pairs × one/two (all) options × report kinds; single text pairs from first principles; comparing cleaned objects; pairs × 11 overridden DiffOptions hooks.","comparison model with clean-ups; metamorphic relation"),
'C26':("All filters of 1–2 (3) paths × pairs.","comparison model with filters; comparison of pruned copies"),
'C27':("All ordered pairs swapped, repeated, copied, with dictionaries refilled in another order; in processes with 4/24 hash seeds.","relation between two runs of the real code"),
'C28':("All small objects × all option combinations; all filters of 1–2 paths; data of the wrong shape at every place; recorded conversion calls.","reference traversal of trees; cast-back tree; call log"),
'C29':("All types of up to two (three) properties of 20 kinds × bases × instances × options × filters.","the declarations"),
'C30':("All pairs/triples of sixteen observers on all small objects with every mutation in between; returned plain data is wrecked.","tree before = after; repeated answers equal"),
'C31':("Two threads, 19 operations (among them first uses of every library-wide cache), all pairs, see above.","the result of each operation alone"),
'C32':("Chains of 1–3 subtypes over four bases × conditions × values around boundaries, directly, in slots, lists, unions.","conjunction of conditions"),
'C33':("Predefined property types × eight option variants × value matrix; every day of several years, every second of a day.","Python's own conversions"),
'C34':("Custom patterns with recording hooks over all small objects of 20 types: all options, all filters of 1–2 paths; stopping (four ways) at every one or two places; every single hook call raising; casting and reflecting the same.","reference traversal giving the exact sequence of (hook, place, value) and the combined result"),
'C35':("Types with json_data of every signature and from_json of every kind, at every place; pairs and triples in one object (dispatch is cached by type), repeated.","the expected output and the exact calls (object, extraneous)"),
'C36':("Wrong arguments × sets of valid ones × property classes; pairs of wrong declarations in both orders; wrong record bodies × bases; all option sets probed after a refusal.","the documented error class; C07's behaviour battery before and after"),
'C37':("Kinds of refusal × values (38, many looking like format directives) × property kinds × places in the hierarchy × ways of giving; every collection operation; nesting; placeholders; selectors; own exceptions of every field set.","class and built-in bases, attributes by identity, message contents, repr"),
'C38':("Pairs of small objects × options × ways of asking; copies, pickles, visits, casts and JSON round trips of each report, with everything they return wrecked afterwards; hand-made entries of every kind, place and form, reports of up to two (three) entries compared with each other.","the entries found by `diff_iter`; text composed from the documented format; the report itself"),
'C39':("All objects and pairs of 28 types, with lazy, empty, union and nested slots; every key of up to three properties in every order × four ways of declaring × three kinds of type; unhashable values to depth three.","primary key computed from the tree and the declarations"),
}
out=open(HERE + '/design/head.md').read()
props={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
for pid in sorted(props):
    m,t,n=CHECKS[pid]
    a,b=D[pid]
    tm=''
    try:
        e=json.load(open('/verif/evidence/%s.json'%pid))
        tm=T[pid]
    except Exception: pass
    out+="### %s %s\n\n*Explored:* %s\n*Oracle:* %s.\n*Bounds:* %s\n*Module:* `mc/%s.py`%s\n\n"%(pid,props[pid]['title'],a,b,n,m,tm)
out+=open(HERE + '/design/tail.md').read()
# the planted changes: which check caught which (tools/design/caught.json is
# written by plant.py --check)
caught = {}
try:
    caught = json.load(open(HERE + '/design/caught.json'))
except Exception:
    pass
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
out += "\n| change | what it breaks | needs | caught by |\n|---|---|---|---|\n"
for i in sorted(os.listdir(SEEDED)):
    m = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
    out += "| %s | %s | %s | %s |\n" % tuple(
        str(x).replace("|", "\\|").replace("\n", " ") for x in (
            i, m['what_it_breaks'], m['needs'], caught.get(i, "not run")))
open('/verif/DESIGN.md','w').write(out)
