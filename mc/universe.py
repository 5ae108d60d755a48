"""A universe of record types and a plain description ("tree") of every small
object of them.  Trees are independent of the library:

    ("R", type name, {slot: tree})          a record with those slots set
    ("L", type name, [tree..], {slot: tree})   a list (and its properties)
    ("D", type name, {key: tree}, {slot: tree})
    anything else                            a plain value

``build`` makes the real object, ``observe`` describes a real object."""
import datetime
import itertools

from normalize import (
    AutoJsonRecord, DateProperty, DatetimeProperty, DictCollection,
    DictProperty, JsonDictProperty, JsonListProperty, JsonProperty,
    JsonRecord, JsonRecordList, ListCollection, ListProperty, Property,
    Record, ROProperty, V1Property, NCAutoJsonRecord,
)
from normalize.coll import dict_of, list_of
from normalize.property import LazyProperty, SafeProperty
from normalize.record.json import JsonRecordDict

from .core import expect, fail

DATE = datetime.date
DT = datetime.datetime


class Leaf(Record):
    a = Property(isa=int)
    b = Property()


class LeafSub(Leaf):
    c = Property()


class Keyed(Record):
    id = Property(isa=int)
    name = Property(isa=str)
    ex = Property(extraneous=True)
    primary_key = [id]


class Keyed2(Record):
    x = Property(isa=int)
    y = Property(isa=str)
    z = Property()
    primary_key = [x, y]


class Node(Record):
    leaf = Property(isa=Leaf)
    kids = ListProperty(of=Leaf)
    tags = ListProperty(of=str)
    m = DictProperty(of=Leaf)
    n = DictProperty(of=int)
    ex = Property(extraneous=True)
    lz = LazyProperty(isa=str, default=lambda: "lz")
    u = Property()


class KNode(Record):
    ks = ListProperty(of=Keyed)
    kd = DictProperty(of=Keyed)
    k2 = ListProperty(of=Keyed2)
    name = Property(isa=str)


class NList(ListCollection):
    itemtype = Leaf
    name = Property()
    n = Property(isa=int, extraneous=True)


class NDict(DictCollection):
    itemtype = Leaf
    name = Property()


class GBase(ListCollection):
    """made generic: list_of() with properties of its own"""
    suffix = "GList"
    name = Property()


class Holder(Record):
    gl = ListProperty(of=Leaf, coll=GBase)
    nl = Property(isa=NList)
    nd = Property(isa=NDict)
    nodes = ListProperty(of=Node)
    ll = ListProperty(of=list_of(int))
    dl = DictProperty(of=list_of(int))


class Opt(Record):
    ro = ROProperty(isa=int)
    v1 = Property(isa=int, v1_none=None)
    un = Property(isa=(int, str))
    lo = Property(lazy=True, default=lambda: ["d"])
    de = Property(isa=int, default=7)
    dt = DatetimeProperty()


class JLeaf(JsonRecord):
    a = Property(isa=int, json_name="A")
    b = Property()


class JNode(JsonRecord):
    leaf = Property(isa=JLeaf, json_name="theLeaf")
    jl = JsonListProperty(of=JLeaf)
    jd = JsonDictProperty(of=JLeaf, json_name="J.d")
    d = DateProperty()
    v1 = V1Property(isa=int, v1_none=None)
    plain = Property(isa=Leaf)
    ex = Property(extraneous=True)
    ints = ListProperty(of=int)


class JNList(JsonRecordList):
    itemtype = JLeaf
    title = JsonProperty(json_name="t")


class JNDict(JsonRecordDict):
    itemtype = JLeaf
    title = Property()


class JHolder(JsonRecord):
    jn = Property(isa=JNList)
    jm = Property(isa=JNDict)


TYPES = {t.__name__: t for t in (
    Leaf, LeafSub, Keyed, Keyed2, Node, KNode, NList, NDict, Holder, Opt,
    JLeaf, JNode, JNList, JNDict, JHolder, AutoJsonRecord, NCAutoJsonRecord,
)}


def _slot_type(tname, slot):
    return TYPES[tname].properties[slot].valuetype


for _t, _s in (
    ("Node", "kids"), ("Node", "tags"), ("Node", "m"), ("Node", "n"),
    ("KNode", "ks"), ("KNode", "kd"), ("KNode", "k2"), ("Holder", "nodes"),
    ("Holder", "gl"),
    ("Holder", "ll"), ("Holder", "dl"), ("JNode", "jl"), ("JNode", "jd"),
    ("JNode", "ints"),
):
    _v = _slot_type(_t, _s)
    assert TYPES.setdefault(_v.__name__, _v) is _v, _v
TYPES["intList"] = list_of(int)

LAZY = {"Node": {"lz": "lz"}, "Opt": {"lo": ["d"]}}
DEFAULTS = {"Opt": {"de": 7}}
EXTRANEOUS = {"Node": {"ex"}, "Keyed": {"ex"}, "JNode": {"ex"},
              "NList": {"n"}, "JNList": set()}
JSON_TYPES = {"JLeaf", "JNode", "JNList", "JNDict", "JHolder",
              "AutoJsonRecord", "NCAutoJsonRecord"}


def is_tree(t):
    return isinstance(t, tuple) and t and t[0] in ("R", "L", "D")


def R(tname, **slots):
    return ("R", tname, slots)


def L(tname, items=(), **slots):
    return ("L", tname, list(items), slots)


def D(tname, items=(), **slots):
    return ("D", tname, dict(items), slots)


def fresh(v):
    """plain values are never shared between objects"""
    if isinstance(v, list):
        return [fresh(x) for x in v]
    if isinstance(v, dict):
        return {k: fresh(x) for k, x in v.items()}
    return v


def build(t):
    if not is_tree(t):
        return fresh(t)
    T = TYPES[t[1]]
    if t[0] == "R":
        return T(**{k: build(v) for k, v in t[2].items()})
    if t[0] == "L":
        return T(values=[build(v) for v in t[2]],
                 **{k: build(v) for k, v in t[3].items()})
    return T(values={k: build(v) for k, v in t[2].items()},
             **{k: build(v) for k, v in t[3].items()})


def _slots(o):
    rv = {}
    have = vars(o)
    for name, prop in type(o).properties.items():
        if name in have:
            rv[name] = observe(getattr(o, name))
    return rv


def observe(o, lazy=True):
    """the tree of a real object (lazy slots as they are, not evaluated)"""
    if isinstance(o, Record):
        T = type(o)
        name = T.__name__
        expect(TYPES.get(name) is T, "an object of type %r", T)
        if isinstance(o, ListCollection):
            return ("L", name, [observe(v) for v in o], _slots(o))
        if isinstance(o, DictCollection):
            return ("D", name, {k: observe(v) for k, v in o.items()},
                    _slots(o))
        return ("R", name, _slots(o))
    if isinstance(o, dict):
        return {k: observe(v) for k, v in o.items()}
    if isinstance(o, list):
        return [observe(v) for v in o]
    return o


def same(a, b):
    """tree equality which tells 1 from True and "" from u"" """
    if is_tree(a) or is_tree(b):
        if not (is_tree(a) and is_tree(b)) or a[:2] != b[:2]:
            return False
        return all(same(x, y) for x, y in zip(a[2:], b[2:]))
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(sorted(a, key=repr)) == list(sorted(b, key=repr)) and all(
            same(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def strip_lazy(t):
    """the tree without slots that merely hold their evaluated lazy default"""
    if not is_tree(t):
        if isinstance(t, list):
            return [strip_lazy(x) for x in t]
        if isinstance(t, dict):
            return {k: strip_lazy(v) for k, v in t.items()}
        return t
    lz = LAZY.get(t[1], {})
    slots = {k: strip_lazy(v) for k, v in t[-1].items()
             if not (k in lz and same(v, lz[k]))}
    return t[:2] + tuple(strip_lazy(x) for x in t[2:-1]) + (slots,)


def complete(t):
    """the tree a constructed object has: defaults filled in"""
    if not is_tree(t):
        if isinstance(t, list):
            return [complete(x) for x in t]
        if isinstance(t, dict):
            return {k: complete(v) for k, v in t.items()}
        return t
    slots = dict(DEFAULTS.get(t[1], {}))
    slots.update({k: complete(v) for k, v in t[-1].items()})
    if t[0] == "R":
        return ("R", t[1], slots)
    return t[:2] + (complete(t[2]), slots)


def equal(a, b):
    """what == must say for two complete trees: same type and the same in
    every slot that is not extraneous; collections: same item type and equal
    contents"""
    if is_tree(a) and is_tree(b):
        if a[0] != b[0]:
            return False
        if a[0] == "R":
            if a[1] != b[1]:
                return False
            ex = EXTRANEOUS.get(a[1], ())
            lz = LAZY.get(a[1], {})
            for k in set(a[2]) | set(b[2]) | set(lz):
                if k in ex:
                    continue
                if k == "unknown_json_keys":
                    continue
                va = a[2].get(k, lz.get(k, NOTHING))
                vb = b[2].get(k, lz.get(k, NOTHING))
                if a[1] == "Opt" and k == "v1" or \
                        a[1] == "JNode" and k == "v1":
                    va = None if va is NOTHING else va
                    vb = None if vb is NOTHING else vb
                if (va is NOTHING) != (vb is NOTHING) or \
                        va is not NOTHING and not equal(va, vb):
                    return False
            return True
        if TYPES[a[1]].itemtype is not TYPES[b[1]].itemtype:
            return False
        if a[0] == "L":
            return len(a[2]) == len(b[2]) and all(
                equal(x, y) for x, y in zip(a[2], b[2]))
        return set(a[2]) == set(b[2]) and all(
            equal(v, b[2][k]) for k, v in a[2].items())
    if is_tree(a) or is_tree(b):
        return False
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(v, b[k]) for k, v in a.items())
    return a == b


class _Nothing(object):
    def __repr__(self):
        return "NOTHING"


NOTHING = _Nothing()


# -- alphabets ---------------------------------------------------------------

def vary(alphabets, most, full=True):
    """slot settings with at most ``most`` slots set, and one with all set"""
    names = sorted(alphabets)
    for n in range(0, most + 1):
        for combo in itertools.combinations(names, n):
            for vals in itertools.product(*[alphabets[c] for c in combo]):
                yield dict(zip(combo, vals))
    if full and most < len(names):
        yield {n: alphabets[n][-1] for n in names}
        yield {n: alphabets[n][0] for n in names}


STRINGS = ["x", "", "it's (a) \"[b]\" {c}\\", "\u00e9\n"]


def leaves(level=1):
    al = dict(a=[1, 2], b=[None, "x", 1])
    if level > 1:
        al = dict(a=[1, 2, True, -1], b=[None, 0] + STRINGS + [
            ["l", 1], {"k": [1]}, 2.5, ("t",)])
    for s in vary(al, 2):
        yield R("Leaf", **s)


def trees(tname, level=1):
    """every tree of a type, up to a size"""
    l0, l1, l2 = R("Leaf"), R("Leaf", a=1), R("Leaf", a=2, b="x")
    ls = R("LeafSub", a=1, c="s")
    k1, k1b, k2 = (R("Keyed", id=1, name="p"), R("Keyed", id=1, name="q"),
                   R("Keyed", id=2, name="p", ex=0))
    k0 = R("Keyed", name="p")
    q1, q2 = R("Keyed2", x=1, y="a", z=1), R("Keyed2", x=1, y="b")
    j0, j1, j2 = R("JLeaf"), R("JLeaf", a=1), R("JLeaf", a=2, b="x")
    ju = R("JLeaf", a=1, unknown_json_keys={"u": [1, []]})
    most = 2 if level == 1 else 3
    if tname == "Leaf":
        yield from leaves(2 if level else 1)
        return
    if tname == "LeafSub":
        al = dict(a=[1, 2], b=["x"], c=[None, "s"])
        most = 3
    elif tname == "Keyed":
        al = dict(id=[1, 2], name=["p", "q"], ex=[0, 1])
        most = 3
    elif tname == "Keyed2":
        al = dict(x=[1, 2], y=["a", "b"], z=[1, None])
        most = 3
    elif tname == "Node":
        al = dict(
            leaf=[l0, l1, l2, ls],
            kids=[L("LeafList"), L("LeafList", [l1]),
                  L("LeafList", [l1, l2]), L("LeafList", [l2, l1]),
                  L("LeafList", [l1, l1]), L("LeafList", [l0, ls])],
            tags=[L("strList"), L("strList", ["x"]),
                  L("strList", ["x", "[(y)]", "x"])],
            m=[D("LeafMap"), D("LeafMap", {"k": l1}),
               D("LeafMap", {"k": l1, 2: l0}),
               D("LeafMap", {2: l0, "k": l1}), D("LeafMap", {"j": l1})],
            n=[D("intMap"), D("intMap", {"x": 1}),
               D("intMap", {"x": 1, "y": 2}), D("intMap", {"y": 2, "x": 1})],
            ex=[None, "e"], lz=["lz", "other"], u=[None, 0, "q(", [1]],
        )
    elif tname == "KNode":
        al = dict(
            ks=[L("KeyedList"), L("KeyedList", [k1]), L("KeyedList", [k1b]),
                L("KeyedList", [k1, k2]), L("KeyedList", [k2, k1]),
                L("KeyedList", [k1, k1b]), L("KeyedList", [k0])],
            kd=[D("KeyedMap"), D("KeyedMap", {"a": k1}),
                D("KeyedMap", {"b": k1}), D("KeyedMap", {"a": k2, "b": k1}),
                D("KeyedMap", {"b": k1, "a": k2})],
            k2=[L("Keyed2List", [q1]), L("Keyed2List", [q1, q2])],
            name=["n", "m"],
        )
    elif tname == "NList":
        for items in ([], [l1], [l1, l2], [l2, l1], [ls]):
            for s in vary(dict(name=[None, "N[", "N("], n=[1]), 2):
                yield L("NList", items, **s)
        return
    elif tname == "NDict":
        for items in ({}, {"k": l1}, {"k": l1, 2: l0}, {2: l0, "k": l1},
                      {"(": l1}):
            for s in vary(dict(name=[None, "N{", "N("]), 1):
                yield D("NDict", items, **s)
        return
    elif tname == "Holder":
        al = dict(
            nl=[L("NList"), L("NList", [l1], name="N"),
                L("NList", [l1, l2])],
            gl=[L("LeafGList", [l1]), L("LeafGList", [l1], name="g")],
            nd=[D("NDict"), D("NDict", {"k": l1}, name="N")],
            nodes=[L("NodeList"), L("NodeList", [R("Node")]),
                   L("NodeList", [R("Node", leaf=l1, kids=L(
                       "LeafList", [l1, l2])), R("Node", u=1)]),
                   L("NodeList", [R("Node", n=D("intMap", {"x": 1}))])],
            ll=[L("intListList"), L("intListList", [L("intList", [1, 2])]),
                L("intListList", [L("intList"), L("intList", [1])])],
            dl=[D("intListMap"), D("intListMap", {"k": L("intList", [1])}),
                D("intListMap", {"k": L("intList"), "": L("intList")})],
        )
    elif tname == "Opt":
        al = dict(ro=[1, 2], v1=[0, 1], un=[1, "1"], lo=[["d"], None],
                  de=[7, 8], dt=[DT(2020, 1, 2), DT(2020, 1, 2, 3, 4, 5)])
    elif tname == "JLeaf":
        al = dict(a=[1, 2], b=[None, "x", "é\"", [1, {"k": None}], 1.5],
                  unknown_json_keys=[{"u": 1, "e": [], "d": {}},
                                     {"u": {"v": [1, [], {}]}}])
        most = 3
    elif tname == "JNode":
        al = dict(
            leaf=[j0, j1, j2, ju],
            jl=[L("JLeafList"), L("JLeafList", [j1]),
                L("JLeafList", [j1, j2]), L("JLeafList", [j2, ju])],
            jd=[D("JLeafMap"), D("JLeafMap", {"k": j1}),
                D("JLeafMap", {"k": j1, "{": j0})],
            d=[DATE(2020, 2, 29), DATE(1, 1, 1)], v1=[0, 5],
            plain=[l0, l2], ex=["e"],
            ints=[L("intList"), L("intList", [1, 2])],
        )
    elif tname == "JNList":
        for items in ([], [j1], [j1, j2], [ju]):
            for s in vary(dict(title=[None, "T[", "T("],
                               unknown_json_keys=[{}]), 1, full=False):
                if "unknown_json_keys" not in s:
                    yield L("JNList", items, **s)
        return
    elif tname == "JNDict":
        for items in ({}, {"k": j1}, {"k": j1, "(": ju}, {"{": j2}):
            for s in vary(dict(title=[None, "T{", "T("]), 1):
                yield D("JNDict", items, **s)
        return
    elif tname == "JHolder":
        al = dict(jn=[L("JNList"), L("JNList", [j1, ju], title="T")],
                  jm=[D("JNDict"), D("JNDict", {"k": j1}, title="T")])
    elif tname in TYPES and issubclass(TYPES[tname], ListCollection):
        pool = {"LeafList": [l0, l1, l2, ls], "strList": STRINGS,
                "intList": [1, True, 2], "KeyedList": [k0, k1, k1b, k2],
                "JLeafList": [j0, j1, ju],
                "intListList": [L("intList"), L("intList", [1])]}[tname]
        for n in range(0, 4 if level > 1 else 3):
            for c in itertools.product(pool, repeat=n):
                yield L(tname, list(c))
        return
    elif tname in TYPES and issubclass(TYPES[tname], DictCollection):
        pool = {"LeafMap": [l0, l1, ls], "intMap": [1, True, 2],
                "KeyedMap": [k1, k1b, k2], "JLeafMap": [j0, ju],
                "intListMap": [L("intList"), L("intList", [1])]}[tname]
        for n in range(0, 3):
            for ks in itertools.permutations(["x", 1, "(\"["][:3], n):
                for c in itertools.product(pool, repeat=n):
                    yield D(tname, dict(zip(ks, c)))
        return
    else:
        raise AssertionError(tname)
    if tname in ("Node", "JNode", "KNode", "Holder", "Opt") and level == 0:
        most = 1
    for s in vary(al, most):
        yield R(tname, **s)


# -- mutations: single changes, of real objects and of trees -----------------

_L1, _L9 = R("Leaf", a=1), R("Leaf", a=9)
_J9 = R("JLeaf", a=9)
SETS = {
    "Leaf": dict(a=[1, 9], b=["new", None]),
    "LeafSub": dict(a=[9], c=["new"]),
    "Keyed": dict(id=[9], name=["new"], ex=["new"]),
    "Keyed2": dict(x=[9], y=["new"], z=["new"]),
    "Node": dict(leaf=[_L9], kids=[L("LeafList", [_L9])],
                 tags=[L("strList", ["new"])], m=[D("LeafMap", {"n": _L9})],
                 n=[D("intMap", {"n": 9})], ex=["new"], lz=["new"],
                 u=["new", [5]]),
    "KNode": dict(ks=[L("KeyedList", [R("Keyed", id=9)])], name=["new"],
                  kd=[D("KeyedMap", {"n": R("Keyed", id=9)})]),
    "Holder": dict(nl=[L("NList", [_L9], name="new")],
                   nd=[D("NDict", {"n": _L9})],
                   ll=[L("intListList", [L("intList", [9])])]),
    "Opt": dict(v1=[9], un=["new", 9], lo=["new"], de=[9],
                dt=[DT(2021, 1, 1)]),
    "JLeaf": dict(a=[9], b=["new", {"k": [9]}],
                  unknown_json_keys=[{"new": 9}]),
    "JNode": dict(leaf=[_J9], jl=[L("JLeafList", [_J9])],
                  jd=[D("JLeafMap", {"n": _J9})], d=[DATE(2021, 1, 1)],
                  v1=[9], plain=[_L9], ex=["new"],
                  ints=[L("intList", [9])]),
    "JHolder": dict(jn=[L("JNList", [_J9], title="new")],
                    jm=[D("JNDict", {"n": _J9})]),
    "NList": dict(name=["new"], n=[9]),
    "LeafGList": dict(name=["new"]),
    "NDict": dict(name=["new"]),
    "JNList": dict(title=["new"]),
    "JNDict": dict(title=["new"]),
}
READ_ONLY = {("Opt", "ro")}
NEW_ITEM = {"LeafList": _L9, "NList": _L9, "NDict": _L9, "LeafMap": _L9,
            "LeafGList": _L9,
            "strList": "new", "intList": 9, "intMap": 9,
            "KeyedList": R("Keyed", id=9), "KeyedMap": R("Keyed", id=9),
            "Keyed2List": R("Keyed2", x=9), "NodeList": R("Node", u="new"),
            "intListList": L("intList", [9]),
            "intListMap": L("intList", [9]), "JLeafList": _J9,
            "JLeafMap": _J9, "JNList": _J9, "JNDict": _J9}


def mutations(t, path=()):
    """every single change of the object: (path to the part, operation)"""
    if isinstance(t, list):
        yield path, ("append", 9)
        for i, x in enumerate(t):
            yield from mutations(x, path + (("item", i),))
        return
    if isinstance(t, dict):
        yield path, ("setitem", "new", 9)
        for k, x in t.items():
            yield from mutations(x, path + (("item", k),))
        return
    if not is_tree(t):
        return
    T = t[1]
    for slot, vals in SETS.get(T, {}).items():
        for v in vals:
            yield path, ("set", slot, v)
    for slot, v in t[-1].items():
        if (T, slot) not in READ_ONLY:
            yield path, ("del", slot)
        yield from mutations(v, path + (("attr", slot),))
    if t[0] == "L":
        yield path, ("append", NEW_ITEM[T])
        yield path, ("insert", 0, NEW_ITEM[T])
        yield path, ("reverse",)
        for i, x in enumerate(t[2]):
            yield path, ("delitem", i)
            yield path, ("setitem", i, NEW_ITEM[T])
            yield from mutations(x, path + (("item", i),))
    elif t[0] == "D":
        yield path, ("setitem", "new", NEW_ITEM[T])
        for k, x in t[2].items():
            yield path, ("delitem", k)
            yield path, ("setitem", k, NEW_ITEM[T])
            yield from mutations(x, path + (("item", k),))


def mutate(o, path, op):
    """make the change on a real object"""
    for kind, k in path:
        o = getattr(o, k) if kind == "attr" else o[k]
    if op[0] == "set":
        setattr(o, op[1], build(op[2]))
    elif op[0] == "del":
        delattr(o, op[1])
    elif op[0] == "append":
        o.append(build(op[1]))
    elif op[0] == "insert":
        o.insert(op[1], build(op[2]))
    elif op[0] == "reverse":
        o.reverse()
    elif op[0] == "delitem":
        del o[op[1]]
    elif op[0] == "setitem":
        o[op[1]] = build(op[2])
    else:
        raise AssertionError(op)


def thaw(t):
    """a deep copy of a tree"""
    if is_tree(t):
        return t[:2] + tuple(thaw(x) for x in t[2:])
    if isinstance(t, list):
        return [thaw(x) for x in t]
    if isinstance(t, dict):
        return {k: thaw(v) for k, v in t.items()}
    return t


def mutated(t, path, op):
    """the tree after the change"""
    t = thaw(t)
    at = t
    for kind, k in path:
        if kind == "attr":
            at = at[-1][k]
        else:
            at = at[2][k] if is_tree(at) else at[k]
    new = thaw(complete(op[-1]))
    if op[0] == "set":
        at[-1][op[1]] = new
    elif op[0] == "del":
        del at[-1][op[1]]
    else:
        c = at[2] if is_tree(at) else at
        if op[0] == "append":
            c.append(new)
        elif op[0] == "insert":
            c.insert(op[1], new)
        elif op[0] == "reverse":
            c.reverse()
        elif op[0] == "delitem":
            del c[op[1]]
        elif op[0] == "setitem":
            c[op[1]] = new
    return t


RECORDS = ("Leaf", "LeafSub", "Keyed", "Keyed2", "Node", "KNode", "Holder",
           "Opt", "JLeaf", "JNode", "JHolder")
COLLS = ("NList", "NDict", "JNList", "JNDict", "LeafList", "strList",
         "intList", "KeyedList", "JLeafList", "intListList", "LeafMap",
         "intMap", "KeyedMap", "JLeafMap", "intListMap")
ALL = RECORDS + COLLS


def show(t):
    if not is_tree(t):
        return repr(t)
    slots = ", ".join("%s=%s" % (k, show(v)) for k, v in t[-1].items())
    if t[0] == "R":
        return "%s(%s)" % (t[1], slots)
    if t[0] == "L":
        body = "[%s]" % ", ".join(show(v) for v in t[2])
    else:
        body = "{%s}" % ", ".join("%r: %s" % (k, show(v))
                                  for k, v in t[2].items())
    return "%s(%s%s)" % (t[1], body, ", " + slots if slots else "")
