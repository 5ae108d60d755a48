"""C14 JSON round trips, C15 JSON keys, C16 JSON errors, C17 schema-less JSON
records."""
import copy
import datetime
import itertools
import json

from normalize import (
    AutoJsonRecord, DateProperty, DictCollection, DictProperty,
    JsonDictProperty, JsonListProperty, JsonProperty, JsonRecord,
    JsonRecordList, ListCollection, ListProperty, NCAutoJsonRecord, Property,
    Record, ROProperty, from_json, to_json,
)
from normalize.coll import Collection, dict_of, list_of
from normalize.exc import JsonConversionError, NormalizeError
from normalize.property import LazyProperty
from normalize.record.json import JsonRecordDict

from . import universe as U
from .core import attempt, expect, fail
from .universe import (
    build, complete, equal, is_tree, mutate, mutated, mutations, observe,
    same, show, strip_lazy, trees,
)

_count = itertools.count()


def rt(base, **attrs):
    """a new record type, with a name of its own"""
    name = attrs.pop("called", None) or "T%d" % next(_count)
    return type(Record)(name, (base,), attrs)


def standard(v, at="$"):
    """only what JSON has, and exactly of those types"""
    if type(v) is dict:
        for k, x in v.items():
            expect(type(k) is str, "a key %r in JSON data", k)
            standard(x, at + "." + k)
    elif type(v) is list:
        for i, x in enumerate(v):
            standard(x, "%s[%d]" % (at, i))
    else:
        expect(type(v) in (str, int, float, bool, type(None)),
               "%r (%s) at %s of JSON data", v, type(v).__name__, at)


def jsame(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(jsame(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return len(a) == len(b) and all(map(jsame, a, b))
    return a == b


# -- C14 over the universe ----------------------------------------------------

JSON_NAMES = {("JLeaf", "a"): "A", ("JNode", "leaf"): "theLeaf",
              ("JNode", "jd"): "J.d"}


def with_lazy(t):
    if is_tree(t):
        slots = {k: with_lazy(v) for k, v in t[-1].items()}
        for k, v in U.LAZY.get(t[1], {}).items():
            slots.setdefault(k, copy.deepcopy(v))
        mid = tuple([with_lazy(x) for x in m] if isinstance(m, list) else
                    {k: with_lazy(x) for k, x in m.items()}
                    for m in t[2:-1])
        return t[:2] + mid + (slots,)
    return t


def ref_json(t, extraneous):
    """the JSON data of a tree"""
    if is_tree(t):
        if t[0] == "L":
            return [ref_json(x, extraneous) for x in t[2]]
        if t[0] == "D":
            return {k: ref_json(x, extraneous) for k, x in t[2].items()}
        out = {}
        hidden = () if extraneous else U.EXTRANEOUS.get(t[1], ())
        for k, v in t[2].items():
            if k == "unknown_json_keys" or k in hidden:
                continue
            out[JSON_NAMES.get((t[1], k), k)] = ref_json(v, extraneous)
        if extraneous:
            for k, v in t[2].get("unknown_json_keys", {}).items():
                out.setdefault(k, v)
        return out
    if isinstance(t, datetime.datetime):
        return t.strftime("%Y-%m-%dT%H:%M:%S")
    if isinstance(t, datetime.date):
        return t.isoformat()
    if isinstance(t, list):
        return [ref_json(x, extraneous) for x in t]
    if isinstance(t, dict):
        return {k: ref_json(x, extraneous) for k, x in t.items()}
    return t


def invertible(t, top=True):
    """JSON has a place for all of it"""
    if is_tree(t):
        if t[1] == "LeafSub" and not top:
            return False
        if t[0] != "R" and any(k for k in t[-1]):
            return False            # properties of collections
        if t[0] == "D" and not all(isinstance(k, str) for k in t[2]):
            return False
        inner = [] if t[0] == "R" else list(t[2]) if t[0] == "L" else list(
            t[2].values())
        return all(invertible(x, False) for x in inner) and all(
            invertible(x, False) for x in t[-1].values())
    if isinstance(t, list):
        return all(invertible(x) for x in t)
    if isinstance(t, dict):
        return all(isinstance(k, str) and invertible(v)
                   for k, v in t.items())
    return not isinstance(t, tuple)


def drop_extraneous(t):
    if is_tree(t):
        ex = set(U.EXTRANEOUS.get(t[1], ())) | {"unknown_json_keys"}
        slots = {k: drop_extraneous(v) for k, v in t[-1].items()
                 if k not in ex}
        mid = tuple([drop_extraneous(x) for x in m] if isinstance(m, list)
                    else {k: drop_extraneous(x) for k, x in m.items()}
                    for m in t[2:-1])
        return t[:2] + mid + (slots,)
    return t


def drop_empty_unknown(t):
    if is_tree(t):
        slots = {k: drop_empty_unknown(v) for k, v in t[-1].items()
                 if not (k == "unknown_json_keys" and not v)}
        mid = tuple([drop_empty_unknown(x) for x in m] if isinstance(m, list)
                    else {k: drop_empty_unknown(x) for k, x in m.items()}
                    for m in t[2:-1])
        return t[:2] + mid + (slots,)
    return t


def drop_null_v1(t):
    if is_tree(t):
        slots = {k: drop_null_v1(v) for k, v in t[-1].items()
                 if not (k == "v1" and v is None)}
        mid = tuple([drop_null_v1(x) for x in m] if isinstance(m, list)
                    else {k: drop_null_v1(x) for k, x in m.items()}
                    for m in t[2:-1])
        return t[:2] + mid + (slots,)
    return t


def round_trip(T, o, t):
    json_types = issubclass(T, JsonRecord)
    for extraneous in (True, False):
        want = ref_json(with_lazy(t), extraneous)
        data = to_json(o, extraneous=extraneous)
        standard(data)
        expect(jsame(data, want), "JSON data (extraneous=%r) of %s is %r, "
               "expected %r", extraneous, show(t), data, want)
        if extraneous:
            d = to_json(o)
            expect(jsame(d, want), "to_json() is %r, expected %r", d, want)
        if json_types:
            d = o.json_data(extraneous=extraneous)
            expect(jsame(d, want), "json_data(extraneous=%r) is %r, "
                   "expected %r", extraneous, d, want)
            if not extraneous:
                expect(jsame(o.json_data(), want), "json_data() is %r, "
                       "expected %r", o.json_data(), want)
        elif isinstance(T, type) and not extraneous:
            pass
        text = json.dumps(data)
        expect(jsame(json.loads(text), want), "as text: %s", text)
        back = drop_empty_unknown(with_lazy(
            t if extraneous else drop_extraneous(t)))
        before = copy.deepcopy(data)
        for how, doc in (("parsed", data), ("text", text),
                         ("bytes", text.encode()),
                         ("bytearray", bytearray(text.encode()))):
            readers = []
            if not issubclass(T, Collection) or json_types:
                readers.append(("from_json()", lambda d: from_json(T, d)))
            if json_types:
                readers.append(("%s()" % T.__name__, T))
                readers.append((".from_json()", T.from_json))
            for name, read in readers:
                r = attempt(read, doc)
                expect(r[0] == "ok", "%s of %s %r: %r", name, how, doc, r[1])
                expect(type(r[1]) is T, "%s gives a %s", name,
                       type(r[1]).__name__)
                got = observe(r[1])
                # the input is never changed
                expect(jsame(data, before), "%s changed its input to %r",
                       name, data)
                expect(same(drop_empty_unknown(got), back), "%s of %s %r "
                       "gives %s, expected %s", name, how, doc, show(got),
                       show(back))
                if extraneous:
                    expect((r[1] == o) is True, "%s: %r != %r", name, r[1],
                           o)
                again = to_json(r[1], extraneous=extraneous)
                expect(jsame(again, want), "and back: %r, expected %r",
                       again, want)


READABLE = tuple(
    t for t in U.ALL if t in U.RECORDS or t in U.JSON_TYPES or
    t in ("JLeafList", "JLeafMap"))


def tasks_C14(tier):
    thorough = tier == "thorough"
    tasks = []

    def universe(tname, level, part, parts):
        def run(ctx):
            T = U.TYPES[tname]

            def case(t):
                round_trip(T, build(t), t)
                ctx.step()

            def changed(t, path, op, t2):
                o = build(t)
                to_json(o)
                mutate(o, path, op)
                round_trip(T, o, t2)
                ctx.step()
            n = 0
            for i, t in enumerate(trees(tname, level)):
                if i % parts != part:
                    continue
                t = complete(t)
                if not invertible(t):
                    continue
                n += 1
                ctx.state()
                ctx.run((show(t),), case, t)
                if not thorough and tname in ("Node", "JNode") and i % 5:
                    continue
                for path, op in mutations(t):
                    if op[0] == "del" and op[1] in ("de", "lo", "lz"):
                        continue    # rebuilt by their default
                    t2 = mutated(t, path, op)
                    if invertible(t2):
                        ctx.run((show(t), path, op), changed, t, path, op, t2)
            expect(n or parts > 1, "no invertible object of %s", tname)
        return run
    for tname in READABLE:
        parts = {"Node": 4, "JNode": 3}.get(tname, 1)
        for p in range(parts):
            tasks.append(("universe/%s/%d" % (tname, p), universe(
                tname, 2 if thorough and tname != "Node" else 1, p, parts)))
    for outer in ("plain", "json"):
        for inner in ("plain", "json"):
            tasks.append(("shapes/%s-%s" % (outer, inner), shapes(
                outer, inner)))
    tasks.append(("depth", deep_shapes))
    tasks.append(("names", odd_names))
    tasks.append(("integers", integers))
    return tasks


class Ints(JsonRecord):
    n = Property(isa=int, coerce=int)
    ns = ListProperty(of=int)
    any = Property(json_name="Any")


class IntsHolder(Record):
    sub = Property(isa=Ints)
    subs = JsonListProperty(of=Ints)
    named = JsonDictProperty(of=Ints)


def integers(ctx):
    """those too big for many readers of JSON are written as their text, in
    every place, and any integer is read back"""
    edge = sorted({s * (2 ** e + d) for e in (0, 8, 31, 49, 50, 51, 53, 63,
                                              64, 200)
                   for d in (-1, 0, 1) for s in (1, -1)})

    def case(n):
        want = n if -2 ** 50 <= n <= 2 ** 50 else str(n)
        a = Ints(n=n, ns=[n, 1], any=[n, {"k": (n,)}, {n: n}])
        a.unknown_json_keys = {"u": [n]}
        o = IntsHolder(sub=a, subs=[a], named={"x": a})
        data = to_json(o)
        one = {"n": want, "ns": [want, 1], "u": [want],
               "Any": [want, {"k": [want]}, {n: want}]}
        full = {"sub": one, "subs": [one], "named": {"x": one}}
        expect(jsame(data, full), "%d: %r, not %r", n, data, full)
        expect(jsame(to_json(n), want), "%d: %r", n, to_json(n))
        for doc in (data, json.dumps(data)):
            back = from_json(IntsHolder, doc)
            for r in (back.sub, back.subs[0], back.named["x"]):
                expect(type(r.n) is int and r.n == n, "%d: %r", n, r.n)
        ctx.step(4)
    for n in edge:
        ctx.state()
        ctx.run((n,), case, n)
    for v in (True, False):
        expect(to_json(v) is v, "%r", to_json(v))


ODD_NAMES = ("-", "", "0", "a.b", "a b", "\u00e9", "'", "values", "self",
             "json_data", "kwargs", "unknown_json_key", "-1", "\x00")
ODD_VALUES = (None, 0, 1, -1, 0.0, 1.5, "", "x", True, False, (), [], {},
              [None], [[]], [0, ""], {"": None}, {"a": {"": []}}, "\u2028",
              2 ** 50, -2 ** 50)


def odd_names(ctx):
    """keys and values of every kind, in untyped slots, with or without
    functions that convert them both ways"""
    def case(base, n1, n2, funcs, v1, v2):
        def P(n):
            kw = {} if n == "-" else dict(json_name=n)
            if funcs:
                kw.update(json_in=lambda v: ("in", v),
                          json_out=lambda v: v[1])
            return Property(**kw)
        T = rt(base, p=P(n1), q=P(n2))
        k1, k2 = "p" if n1 == "-" else n1, "q" if n2 == "-" else n2
        for present in ((), ("p",), ("q",), ("p", "q")):
            doc, slots = {}, {}
            for n, k, v in (("p", k1, v1), ("q", k2, v2)):
                if n in present:
                    v = copy.deepcopy(list(v) if v == () else v)
                    doc[k] = v
                    slots[n] = ("in", v) if funcs else v
            o = T(**slots)
            data = to_json(o)
            expect(jsame(data, doc), "JSON data of %r is %r, expected %r", o,
                   data, doc)
            for d in (data, json.dumps(data)):
                back = from_json(T, d)
                expect(vars(back) == slots and jsame(
                    [list(v) if type(v) is tuple else v for v in
                     vars(back).values()],
                    [list(v) if type(v) is tuple else v for v in
                     (slots[n] for n in vars(back))]),
                    "%r reads back as %r", o, back)
                expect(back == o, "not equal: %r", back)
            if base is JsonRecord:
                expect(jsame(o.json_data(), doc), "json_data() is %r",
                       o.json_data())
            ctx.step(2)
    for base in (Record, JsonRecord):
        for funcs in (0, 1):
            for n1, n2 in itertools.permutations(ODD_NAMES, 2):
                ctx.run((base.__name__, n1, n2, funcs), case, base, n1, n2,
                        funcs, 1, "x")
                ctx.state()
            for v1, v2 in itertools.product(ODD_VALUES, repeat=2):
                for n1, n2 in (("-", "-"), ("", "a.b")):
                    ctx.run((base.__name__, n1, n2, funcs, v1, v2), case,
                            base, n1, n2, funcs, v1, v2)
                    ctx.state()


# -- C14 over declarations ----------------------------------------------------

def describe(o):
    """types and slots, recursively, of any object"""
    if isinstance(o, Record):
        T = type(o)
        slots = {n: describe(getattr(o, n)) for n in T.properties
                 if n in vars(o)}
        if isinstance(o, ListCollection):
            return (T.__name__, [describe(x) for x in o], slots)
        if isinstance(o, DictCollection):
            return (T.__name__, {k: describe(x) for k, x in o.items()},
                    slots)
        return (T.__name__, slots)
    if isinstance(o, dict):
        return {k: describe(x) for k, x in o.items()}
    if isinstance(o, list):
        return [describe(x) for x in o]
    return (type(o).__name__, o)


def shapes(outer, inner):
    """every kind of slot x kind of record on both levels x JSON names"""
    bases = dict(plain=Record, json=JsonRecord)

    def run(ctx):
        def leaf_type(renamed, called):
            n = dict(json_name="the " + renamed) if renamed else {}
            nd = dict(json_name="D") if renamed else {}
            return rt(bases[inner], called=called,
                      a=Property(isa=int, **n), b=Property(),
                      d=DateProperty(**nd),
                      hid=Property(json_name=None))
        kinds = {}

        def kind(name, make, value, js):
            kinds[name] = (make, value, js)
        kind("rec", lambda K, **k: Property(isa=K, **k),
             lambda K, P, l: l[-1], lambda j: j[-1])
        for nm, P_ in (("list", ListProperty), ("jlist", JsonListProperty)):
            kind(nm, lambda K, P_=P_, **k: P_(of=K, **k),
                 lambda K, P, l: P.valuetype(values=list(l)),
                 lambda j: list(j))
        for nm, P_ in (("dict", DictProperty), ("jdict", JsonDictProperty)):
            kind(nm, lambda K, P_=P_, **k: P_(of=K, **k),
                 lambda K, P, l: P.valuetype(
                     values=dict(zip(("k", "", "A"), l))),
                 lambda j: dict(zip(("k", "", "A"), j)))
        kind("lol", lambda K, **k: ListProperty(of=list_of(K), **k),
             lambda K, P, l: P.valuetype(values=[
                 list_of(K)(list(l)), list_of(K)([])]),
             lambda j: [list(j), []])
        kind("jlol", lambda K, **k: JsonListProperty(
                 of=rt(JsonRecordList, itemtype=K), **k),
             lambda K, P, l: P.valuetype(values=[
                 P.valuetype.itemtype(values=list(l)),
                 P.valuetype.itemtype(values=[])]),
             lambda j: [list(j), []])
        kind("dol", lambda K, **k: DictProperty(of=list_of(K), **k),
             lambda K, P, l: P.valuetype(values={
                 "x": list_of(K)(list(l)), "y": list_of(K)([])}),
             lambda j: {"x": list(j), "y": []})
        kind("lod", lambda K, **k: ListProperty(of=dict_of(K), **k),
             lambda K, P, l: P.valuetype(values=[
                 dict_of(K)({"x": l[-1]}), dict_of(K)({})]),
             lambda j: [{"x": j[-1]}, {}])
        date = datetime.date(2020, 2, 29)
        # values of the leaf: (slots, JSON by declared name)
        leaves = [{}, dict(a=1), dict(b=None), dict(b={"l": [1, None]}),
                  dict(a=2, b="x", d=date)]

        def case(renamed, oname, kname, with_scalar, chosen):
            called = "S%d" % next(_count)
            K = leaf_type(renamed, called)
            make, value, js = kinds[kname]
            names = dict(json_name=oname) if oname else {}
            T = rt(bases[outer], called=called + "O",
                   slot=make(K, **names), n=Property(isa=int),
                   hid=Property(json_name=None))
            objs = [K(**chosen_slots) for chosen_slots in chosen]
            jn = {"a": "the " + renamed if renamed else "a", "b": "b",
                  "d": "D" if renamed else "d"}
            jl = [{jn[k]: v.isoformat() if k == "d" else v
                   for k, v in s.items()} for s in chosen]
            kw = dict(slot=value(K, T.properties["slot"], objs))
            want = {oname or "slot": js(jl)}
            if with_scalar:
                kw["n"] = 5
                want["n"] = 5
            o = T(**kw)
            data = to_json(o)
            standard(data)
            expect(jsame(data, want), "JSON data of %r: %r, expected %r", o,
                   data, want)
            text = json.dumps(data)
            frozen = copy.deepcopy(data)
            for doc in (data, text, text.encode()):
                r = from_json(T, doc)
                expect(describe(r) == describe(o) and r == o,
                       "from_json(%r) gives %r, expected %r", doc, r, o)
                if outer == "json":
                    r = T(doc)
                    expect(describe(r) == describe(o) and r == o,
                           "%s(%r) gives %r, expected %r", T.__name__, doc,
                           r, o)
            expect(jsame(data, frozen), "reading changed its input")
            # what has no JSON key is not written, and not read
            o.hid = "h"
            if objs:
                objs[-1].hid = "h"
            expect(jsame(to_json(o), want), "%r has no JSON name, but: %r",
                   "hid", to_json(o))
            ctx.step(4)
        combos = [[x] for x in leaves] + [
            [x, y] for x in leaves[:3] for y in leaves[2:]] + [
            [leaves[1], leaves[0], leaves[4]]]
        for renamed in ("", "key"):
            for oname in (None, "n2", "a b.[", ""):
                for kname in sorted(kinds):
                    cs = list(combos)
                    if kname not in ("rec", "lod"):
                        cs.append([])
                    for with_scalar in (False, True):
                        for chosen in cs:
                            ctx.run((renamed, oname, kname, with_scalar,
                                     chosen), case, renamed, oname, kname,
                                    with_scalar, chosen)
                            ctx.state()
    return run


def deep_shapes(ctx):
    """alternating plain and JSON records and containers, four levels deep"""
    def types(pattern):
        """pattern: letters r(ecord) j(son record); containers l, d, L, D,
        or - for none, between them"""
        n = next(_count)
        T = None
        for depth, (k, c) in enumerate(reversed(pattern)):
            base = JsonRecord if k == "j" else Record
            attrs = dict(called="P%d_%d" % (n, depth),
                         v=Property(isa=int, json_name="V"))
            if T is not None:
                attrs["sub"] = {
                    "-": lambda: Property(isa=T, json_name="S"),
                    "l": lambda: ListProperty(of=T, json_name="S"),
                    "d": lambda: DictProperty(of=T, json_name="S"),
                    "L": lambda: JsonListProperty(of=T, json_name="S"),
                    "D": lambda: JsonDictProperty(of=T, json_name="S"),
                }[c]()
            T = rt(base, **attrs)
        return T

    def doc_for(pattern, n=0):
        d = {"V": n}
        if len(pattern) > 1:
            c = pattern[0][1]
            s = doc_for(pattern[1:], n + 1)
            s2 = doc_for(pattern[1:], n + 7)
            d["S"] = (s if c == "-" else [s, s2] if c in "lL" else
                      {"x": s, "y z": s2})
        return d

    def check(o, T, pattern, n=0):
        expect(type(o) is T and o.v == n, "%r for level %d", o, n)
        if len(pattern) > 1:
            c = pattern[0][1]
            sub = o.sub
            VT = T.properties["sub"].valuetype
            expect(type(sub) is VT, "a %s in %r", type(sub).__name__, o)
            if c == "-":
                check(sub, VT, pattern[1:], n + 1)
            else:
                ks = (0, 1) if c in "lL" else ("x", "y z")
                expect(len(sub) == 2, "%r", sub)
                check(sub[ks[0]], VT.itemtype, pattern[1:], n + 1)
                check(sub[ks[1]], VT.itemtype, pattern[1:], n + 7)

    def case(pattern):
        T = types(pattern)
        doc = doc_for(pattern)
        frozen = copy.deepcopy(doc)
        for d in (doc, json.dumps(doc)):
            o = from_json(T, d)
            check(o, T, pattern)
            expect(jsame(to_json(o), doc), "and back: %r, expected %r",
                   to_json(o), doc)
            expect(jsame(doc, frozen), "reading changed its input")
            o2 = from_json(T, to_json(o))
            expect(o2 == o, "%r, expected %r", o2, o)
        ctx.step(4)
    conts = "-ldLD"
    depth = 4 if ctx.thorough else 3
    for n in range(2, depth + 1):
        for recs in itertools.product("rj", repeat=n):
            for cs in itertools.product(conts, repeat=n - 1):
                pattern = list(zip(recs, cs + ("-",)))
                ctx.run((pattern,), case, pattern)
                ctx.state()


# -- C15 -----------------------------------------------------------------------

ABSENT = object()
NAMES = ("-", "x", "other", None)       # default, renamed, swapped, none


def j_in(v):
    return ["in", v]


def j_out(v):
    return {"out": v}


def declared(me, other, variant, base=Property):
    name, fin, fout, ex, plain = variant
    kw = {}
    if not plain:
        if name == "other":
            kw["json_name"] = other
        elif name != "-":
            kw["json_name"] = name
        if fin:
            kw["json_in"] = j_in
        if fout:
            kw["json_out"] = j_out
    if ex:
        kw["extraneous"] = True
    return base(**kw)


def key_of(me, other, variant):
    name, plain = variant[0], variant[4]
    if plain or name == "-":
        return me
    return other if name == "other" else name


def tasks_C15(tier):
    thorough = tier == "thorough"
    variants = []
    for name in NAMES:
        for fin, fout in ((0, 0), (1, 0), (0, 1), (1, 1)):
            for ex in (0, 1):
                variants.append((name, fin, fout, ex, 0))
    variants.append(("-", 0, 0, 0, 1))
    variants.append(("-", 0, 0, 1, 1))

    def declarations(kind, part, parts):
        def run(ctx):
            base = dict(json=JsonRecord, plain=Record)[kind]
            nested = {"v": [1, {"w": 2}]}
            docs = []
            for present in itertools.product((0, 1), repeat=5):
                doc = {}
                for k, on in zip(("p", "q", "x", "u", "unknown_json_keys"),
                                 present):
                    if on:
                        doc[k] = copy.deepcopy(nested) if k in "ux" else \
                            k.upper()
                docs.append(doc)
            docs.append({"p": None, "q": 0, "x": ""})
            docs.append({"x": False, "u": None, "": [], "P": {}})

            def case(vp, vq, T, doc):
                keys = {"p": key_of("p", "q", vp), "q": key_of("q", "p", vq)}
                var = {"p": vp, "q": vq}
                claimed = {k for k in keys.values() if k is not None}
                unknown = {k: v for k, v in doc.items() if k not in claimed}
                slots = {}
                for pn in ("p", "q"):
                    k = keys[pn]
                    if k is not None and k in doc:
                        slots[pn] = j_in(doc[k]) if var[pn][1] else doc[k]
                frozen = copy.deepcopy(doc)
                text = json.dumps(doc)
                forms = [("parsed", doc), ("text", text),
                         ("bytes", text.encode()),
                         ("bytearray", bytearray(text.encode()))]
                for form, d in forms:
                    r = attempt(from_json, T, d)
                    expect(jsame(doc, frozen), "reading changed its input "
                           "to %r", doc)
                    if kind == "plain" and unknown:
                        expect(r[0] == "exc", "a plain record with unknown "
                               "keys: %r", r[1])
                        ctx.step()
                        continue
                    expect(r[0] == "ok", "%s: %r", form, r[1])
                    reads = [r[1]]
                    if kind == "json":
                        reads.append(T(d))
                        reads.append(T.from_json(d))
                    for o in reads:
                        have = vars(o)
                        for pn in ("p", "q"):
                            expect((pn in have) == (pn in slots),
                                   "%s set: %r in %r (%s)", pn, pn in have,
                                   o, form)
                            if pn in slots:
                                expect(jsame(getattr(o, pn), slots[pn]),
                                       "%s is %r, expected %r", pn,
                                       getattr(o, pn), slots[pn])
                        u = have.get("unknown_json_keys")
                        expect(jsame(u or {}, unknown),
                               "unknown keys are %r, expected %r", u,
                               unknown)
                        write(o, slots, unknown, keys, var)
                        expect(jsame(doc, frozen), "the input became %r",
                               doc)
                        # unknown keys are not shared with the input
                        if form == "parsed" and isinstance(
                                unknown.get("u"), dict):
                            o.unknown_json_keys["u"]["v"].append("z")
                            o.unknown_json_keys["u"]["v"][1]["w"] = "z"
                            expect(jsame(doc, frozen), "changing the "
                                   "unknown keys changed the input to %r",
                                   doc)
                        ctx.step(2)

            def write(o, slots, unknown, keys, var):
                for extraneous in (True, False):
                    outs = []
                    if kind == "json":
                        outs.append(o.json_data(extraneous=extraneous))
                        if not extraneous:
                            outs.append(o.json_data())
                    outs.append(to_json(o, extraneous=extraneous))
                    if extraneous:
                        outs.append(to_json(o))
                    want, alt = {}, {}
                    for pn in ("p", "q"):
                        k = keys[pn]
                        if k is None or pn not in slots or (
                                var[pn][3] and not extraneous):
                            continue
                        v = j_out(slots[pn]) if var[pn][2] else slots[pn]
                        if k in want:
                            alt[k] = v
                        else:
                            want[k] = v
                    if extraneous and kind == "json":
                        for k, v in unknown.items():
                            want.setdefault(k, v)
                    for got in outs:
                        ok = set(got) == set(want) and all(
                            jsame(got[k], want[k]) or
                            (k in alt and jsame(got[k], alt[k]))
                            for k in want)
                        expect(ok, "JSON data (extraneous=%r) is %r, "
                               "expected %r", extraneous, got, want)
            pairs = list(itertools.product(variants, repeat=2))
            if not thorough:
                # one of the two is always a simple one
                simple = {("-", 0, 0, 0, 0), ("-", 0, 0, 0, 1),
                          ("x", 0, 0, 0, 0), ("other", 0, 0, 0, 0),
                          (None, 0, 0, 0, 0), ("x", 1, 1, 1, 0)}
                pairs = [p for p in pairs
                         if p[0] in simple or p[1] in simple]
            for vp, vq in pairs[part::parts]:
                T = rt(base, p=declared("p", "q", vp),
                       q=declared("q", "p", vq))
                ctx.state()
                for doc in docs:
                    ctx.run((kind, vp, vq, doc), case, vp, vq, T,
                            copy.deepcopy(doc))
        return run
    parts = 6
    tasks = []
    for p in range(parts):
        tasks.append(("declarations/json/%d" % p,
                      declarations("json", p, parts)))
    for p in range(2):
        tasks.append(("declarations/plain/%d" % p,
                      declarations("plain", p, 2)))
    tasks.append(("property-kinds", property_kinds))
    tasks.append(("unknown-keys", unknown_keys))
    tasks.append(("not-overridden", not_overridden))
    tasks.append(("arguments", arguments_win))
    tasks.append(("members", ready_members))
    tasks.append(("keywords", keywords))
    tasks.append(("hooks", hooks))
    tasks.append(("inherited", inherited_keys))
    return tasks


def property_kinds(ctx):
    """JSON options on every kind of property, alone and combined"""
    date = datetime.date(2020, 1, 2)

    def P(**kw):
        return kw
    kinds = {
        "int": (lambda **k: Property(isa=int, **k), 5, 5),
        "date": (lambda **k: DateProperty(**k), "2020-01-02", date),
        "list": (lambda **k: ListProperty(of=int, **k), [1, 2], [1, 2]),
        "jlist": (lambda **k: JsonListProperty(of=U.JLeaf, **k),
                  [{"A": 1}, {}], None),
        "dict": (lambda **k: DictProperty(of=int, **k), {"k": 1}, {"k": 1}),
        "jdict": (lambda **k: JsonDictProperty(of=U.JLeaf, **k),
                  {"k": {"A": 1}}, None),
        "rec": (lambda **k: Property(isa=U.Leaf, **k), {"a": 1}, None),
        "jrec": (lambda **k: Property(isa=U.JLeaf, **k), {"A": 1}, None),
        "v1": (lambda **k: Property(isa=int, v1_none=None, **k), 5, 5),
        "lazy": (lambda **k: LazyProperty(isa=int, default=lambda: 9, **k),
                 5, 5),
        "ro": (lambda **k: ROProperty(isa=int, **k), 5, 5),
        "default": (lambda **k: Property(isa=int, default=9, **k), 5, 5),
        "required": (lambda **k: Property(isa=int, required=True, **k), 5,
                     5),
        "coerce": (lambda **k: Property(isa=int, coerce=lambda v: int(v),
                                        **k), "5", 5),
        "check": (lambda **k: Property(isa=int, check=lambda v: v > 0, **k),
                  5, 5),
    }
    seen = []

    def wrap_in(v):
        seen.append(("in", copy.deepcopy(v)))
        return v["w"]

    def wrap_out(v):
        seen.append(("out", v))
        return {"w": json.loads(json.dumps(to_json(v)))}

    def case(kname, base, jname, fin, fout, ex):
        make, doc, value = kinds[kname]
        kw = {}
        if jname != "-":
            kw["json_name"] = jname
        if fin:
            kw["json_in"] = wrap_in
        if fout:
            kw["json_out"] = wrap_out
        if ex:
            kw["extraneous"] = True
        T = rt(base, p=make(**kw))
        key = "p" if jname == "-" else jname
        d = copy.deepcopy({"w": doc} if fin else doc)
        del seen[:]
        if key is None:
            start = {} if kname != "required" else None
            if start is not None:
                o = attempt(from_json, T, {"p": d})
                if base is Record:
                    expect(o[0] == "exc", "unknown key accepted: %r", o[1])
                else:
                    expect(o[0] == "ok" and jsame(
                        o[1].unknown_json_keys, {"p": d}),
                        "%r has no JSON key, but reading gives %r", "p", o)
                    expect("p" not in vars(o[1]) or kname == "default",
                           "read from no key: %r", o[1])
                expect(not seen, "functions were called: %r", seen)
            o = T(p=copy.deepcopy(doc))
            got = to_json(o)
            expect(got == {} and not seen, "written: %r (%r)", got, seen)
            ctx.step(2)
            return
        frozen = copy.deepcopy(d)
        o = from_json(T, {key: d})
        expect(jsame(d, frozen), "reading changed its input to %r", d)
        expect(seen == ([("in", frozen)] if fin else []),
               "json_in was called with %r", seen)
        del seen[:]
        want = T(p=copy.deepcopy(doc))
        expect(describe(o) == describe(want), "%r, expected %r", o, want)
        if value is not None:
            v = o.p
            if isinstance(v, Collection):
                v = dict(v.items()) if kname == "dict" else list(v)
            expect(type(v) is type(value) and v == value, "%r", v)
        for extraneous in (True, False):
            del seen[:]
            got = to_json(o, extraneous=extraneous)
            if ex and not extraneous:
                expect(got == {} and not seen, "extraneous: %r", got)
                continue
            out = value.isoformat() if kname == "date" and not fout else \
                doc if kname not in ("coerce",) else 5
            if fout:
                out = {"w": "2020-01-02" if kname == "date" else out}
                expect(len(seen) == 1 and seen[0][1] is o.p,
                       "json_out was called with %r", seen)
            expect(jsame(got, {key: out}), "JSON data %r, expected %r", got,
                   {key: out})
        # unset slots are left out
        if kname not in ("required",):
            o = T()
            del seen[:]
            got = to_json(o)
            if kname in ("default", "lazy"):
                expect(jsame(got, {key: {"w": 9} if fout else 9}),
                       "defaults: %r", got)
            else:
                expect(got == {} and not seen, "an unset slot gives %r",
                       got)
        ctx.step(4)
    for kname in sorted(kinds):
        for base in (Record, JsonRecord):
            for jname in ("-", "x", "", "p q", None):
                for fin, fout in itertools.product((0, 1), repeat=2):
                    if kname == "date" and fout and False:
                        continue
                    if kname == "date" and (fin or fout):
                        continue    # these replace its own functions
                    for ex in (0, 1):
                        ctx.run((kname, base.__name__, jname, fin, fout, ex),
                                case, kname, base, jname, fin, fout, ex)
                        ctx.state()


def unknown_keys(ctx):
    """unknown keys of every shape, nested, and merged back"""
    values = [1, None, "x", [], {}, [1, [2, {"k": 3}]],
              {"a": 1, "A": {"b": [1]}}, 1.5, True, "\u00e9"]
    keys = ["u", "", "a", "b c", "unknown_json_keys", "json_data", "A.b"]

    def case(items, where):
        extra = {k: copy.deepcopy(v) for k, v in items}
        leaf = dict(extra, A=1)
        if where == "top":
            T, doc = U.JLeaf, leaf
            at = lambda o: o
        elif where == "leaf":
            T, doc = U.JNode, {"theLeaf": leaf}
            at = lambda o: o.leaf
        elif where == "list":
            T, doc = U.JNode, {"jl": [{}, leaf]}
            at = lambda o: o.jl[1]
        elif where == "dict":
            T, doc = U.JNode, {"J.d": {"k": leaf}}
            at = lambda o: o.jd["k"]
        frozen = copy.deepcopy(doc)
        o = from_json(T, doc)
        expect(jsame(at(o).unknown_json_keys, extra), "%r",
               at(o).unknown_json_keys)
        expect(at(o).a == 1, "%r", o)
        expect(jsame(to_json(o), frozen), "JSON data %r, expected %r", to_json(o), frozen)
        expect(jsame(o.json_data(extraneous=True), frozen),
               "JSON data %r, expected %r", o.json_data(extraneous=True),
               frozen)
        # nothing of it is shared, in either direction
        for k, v in at(o).unknown_json_keys.items():
            stir(v)
        at(o).unknown_json_keys["more"] = 1
        expect(jsame(doc, frozen), "the input became %r", doc)
        o = from_json(T, doc)
        want = copy.deepcopy(at(o).unknown_json_keys)
        stir(doc)
        expect(jsame(at(o).unknown_json_keys, want), "changing the input "
               "changed the record to %r", o)
        # output without
        o = from_json(T, frozen)
        slim = json.loads(json.dumps(frozen))

        def strip(d):
            for k in list(d):
                if k in extra:
                    del d[k]
        strip({"top": lambda: slim, "leaf": lambda: slim["theLeaf"],
               "list": lambda: slim["jl"][1],
               "dict": lambda: slim["J.d"]["k"]}[where]())
        expect(jsame(o.json_data(), slim), "JSON data without extraneous "
               "%r, expected %r", o.json_data(), slim)
        # a property's value is not overridden
        o = at(o)
        o.unknown_json_keys["A"] = "no"
        o.unknown_json_keys["a2"] = "yes"
        jd = o.json_data(extraneous=True)
        expect(jd["A"] == 1 and jd["a2"] == "yes", "%r", jd)
        ctx.step(5)
    for where in ("top", "leaf", "list", "dict"):
        for k in keys:
            for v in values:
                ctx.run((where, k, v), case, [(k, v)], where)
                ctx.state()
        for k1, k2 in itertools.combinations(keys, 2):
            for v1, v2 in itertools.product(values[4:8], repeat=2):
                ctx.run((where, k1, v1, k2, v2), case,
                        [(k1, v1), (k2, v2)], where)
                ctx.state()


def not_overridden(ctx):
    """whatever is stored under the key of a property which has a value"""
    class UJ(JsonRecord):
        a = Property(json_name="A")
        b = Property()
        ex = Property(extraneous=True)
        out = Property(json_name="Out", json_out=lambda v: None)
        no = JsonProperty(json_name=None)
    values = [None, False, 0, "", [], {}, 1, "x", [None], {"k": 1}]
    keys = {"a": "A", "b": "b", "ex": "ex", "out": "Out", "no": "no"}

    def case(name, value, other):
        o = UJ(unknown_json_keys={keys[name]: other, "more": other},
               **{name: value})
        want = {"more": other, keys[name]: value}
        if name == "out":
            want["Out"] = None
        elif name == "no":
            # nothing claims this key
            want["no"] = other
        for f in (lambda: o.json_data(extraneous=True), lambda: to_json(o),
                  lambda: to_json([o])[0]):
            jd = f()
            expect(jsame(jd, want), "JSON data %r, expected %r", jd, want)
            ctx.step()
        jd = o.json_data()
        want = {} if name in ("ex", "no") else {keys[name]: want[keys[name]]}
        expect(jsame(jd, want), "JSON data without extraneous %r, expected "
               "%r", jd, want)
    for name in sorted(keys):
        for value in values:
            for other in values:
                ctx.run((name, value, other), case, name, value, other)
                ctx.state()


def arguments_win(ctx):
    """arguments given besides a document"""
    class AJ(JsonRecord):
        a = Property(json_name="A")
        b = Property()
        ex = Property(extraneous=True)
        f = Property(json_name="F", json_in=lambda v: ["in", v])
        no = JsonProperty(json_name=None)

    class AL(JsonRecordList):
        itemtype = AJ

    class AD(JsonRecordDict):
        itemtype = AJ
    keys = {"a": "A", "b": "b", "ex": "ex", "f": "F"}
    values = [None, False, 0, "", [], {}, 1, [None]]

    def case(doc, given, form):
        text = json.dumps(doc)
        data = {"data": lambda: json.loads(text), "text": lambda: text,
                "bytes": text.encode}[form]()
        o = AJ(data, **given)
        want = {}
        left = dict(doc)
        for n, k in keys.items():
            if k in left:
                v = left.pop(k)
                want[n] = ["in", v] if n == "f" else v
        want.update(given)
        if left:
            want["unknown_json_keys"] = left
        got = {n: v for n, v in vars(o).items()}
        expect(same_values(got, want), "AJ(%s, **%r) holds %r, expected %r",
               data, given, got, want)
        for n, v in given.items():
            expect(got[n] is v, "%s is a copy", n)
        ctx.step()

    def same_values(x, y):
        return json.dumps(x, sort_keys=True) == json.dumps(y, sort_keys=True)
    for n in sorted(keys) + ["no"]:
        for given in [{}] + [{n: v} for v in values]:
            for other in (None, "a", "b", "f"):
                if other and (other == n or not given):
                    continue
                g = dict(given)
                if other:
                    g[other] = 7
                for v in values:
                    for more in ((), ("z",), tuple(keys.values()),
                                 ("a", "f", "no", "A")):
                        doc = {keys.get(n, n): v}
                        doc.update((m, 5) for m in more)
                        for form in ("data", "text", "bytes"):
                            ctx.state()
                            ctx.run((n, sorted(g.items()), repr(v), more,
                                     form), case, doc, g, form)

    def coll(T, doc, values, form):
        text = json.dumps(doc)
        data = {"data": lambda: json.loads(text), "text": lambda: text,
                "none": lambda: None}[form]()
        o = T(data, values=values)
        if values is None:
            want = [] if form == "none" else list(
                doc.values() if isinstance(doc, dict) else doc)
        else:
            want = list(values.values() if isinstance(values, dict)
                        else values)
        got = list(o.values()) if T is AD else list(o)
        expect(len(got) == len(want), "%s(%r, values=%r) is %r", T.__name__,
               data, values, o)
        for g, w in zip(got, want):
            expect(g is w if isinstance(w, AJ) else
                   type(g) is AJ and same_values(vars(g), {"b": w["b"]}),
                   "%s(%r, values=%r) is %r", T.__name__, data, values, o)
        ctx.step()
    for T in (AL, AD):
        for n in range(3):
            doc = [{"b": i} for i in range(n)]
            for values in (None, [], [AJ(b=9)], [AJ(b=9), AJ(b=8), AJ()]):
                d, v = doc, values
                if T is AD:
                    d = {"k%d" % i: x for i, x in enumerate(doc)}
                    if v is not None:
                        v = {"v%d" % i: x for i, x in enumerate(v)}
                for form in ("data", "text", "none"):
                    ctx.state()
                    ctx.run((T.__name__, n, None if values is None else
                             len(values), form), coll, T, d, v, form)


def ready_members(ctx):
    """documents some items of which are already what they are to become"""
    class MJ(JsonRecord):
        n = Property(json_name="N")

    class MJSub(MJ):
        m = Property()

    class MR(Record):
        n = Property()

    class MRSub(MR):
        m = Property()

    class MOwn(Record):
        n = Property()

        @classmethod
        def from_json(cls, data):
            return cls(n=data["N"])

    class MOwnSub(MOwn):
        m = Property()
    for item, sub, key in ((MJ, MJSub, "N"), (MR, MRSub, "n"),
                           (MOwn, MOwnSub, "N")):
        class LJ(JsonRecordList):
            itemtype = item

        class DJ(JsonRecordDict):
            itemtype = item

        class HL(JsonRecord):
            items = JsonListProperty(of=item, json_name="Items")

        class HD(JsonRecord):
            items = JsonDictProperty(of=item)
        ways = {
            "LJ": lambda xs: LJ(xs), "DJ": lambda xs: DJ(xs),
            "from_json LJ": lambda xs: from_json(LJ, xs),
            "from_json DJ": lambda xs: from_json(DJ, xs),
            "HL": lambda xs: HL({"Items": xs}).items,
            "HD": lambda xs: HD({"items": xs}).items,
            "HL from_json": lambda xs: from_json(HL, {"Items": xs}).items,
            "HD from_json": lambda xs: from_json(HD, {"items": xs}).items,
        }

        def case(way, kinds):
            made = []
            for i, kind in enumerate(kinds):
                made.append({key: i} if kind == "data" else item(n=i)
                            if kind == "item" else sub(n=i, m=i))
            doc = list(made)
            if "D" in way:
                doc = {"k%d" % i: x for i, x in enumerate(made)}
            got = ways[way](doc)
            got = list(got.values()) if "D" in way else list(got)
            expect(len(got) == len(made), "%r", got)
            for i, (g, x) in enumerate(zip(got, made)):
                if isinstance(x, dict):
                    expect(type(g) is item and vars(g) == {"n": i}, "%r", g)
                else:
                    expect(g is x, "%r instead of the given %r", g, x)
            ctx.step()
        for way in sorted(ways):
            for n in range(4):
                for kinds in itertools.product(("data", "item", "sub"),
                                               repeat=n):
                    ctx.state()
                    ctx.run((item.__name__, way, kinds), case, way, kinds)


def stir(v):
    """change every part of a value in place"""
    if isinstance(v, dict):
        for x in list(v.values()):
            stir(x)
        v["stirred"] = True
    elif isinstance(v, list):
        for x in v:
            stir(x)
        v.append("stirred")


def keywords(ctx):
    """values given by keyword win over the document"""
    def case(kw, doc):
        frozen = copy.deepcopy(doc)
        o = U.JLeaf(doc, **copy.deepcopy(kw))
        expect(jsame(doc, frozen), "the input became %r", doc)
        want = {}
        if "A" in doc:
            want["a"] = doc["A"]
        if "b" in doc:
            want["b"] = doc["b"]
        un = {k: v for k, v in doc.items() if k not in ("A", "b")}
        want.update(kw)
        have = {k: v for k, v in vars(o).items()
                if k in ("a", "b")}
        expect(jsame(have, want), "%r, expected %r", have, want)
        expect(jsame(getattr(o, "unknown_json_keys", {}), un), "%r", o)
        ctx.step()
    for kw in ({}, {"a": 7}, {"b": None}, {"a": 7, "b": [1]}):
        for ks in itertools.product((0, 1), repeat=4):
            doc = {k: v for k, v, on in zip(
                ("A", "b", "a", "u"), (1, "x", {"z": 1}, 2), ks) if on}
            ctx.run((kw, doc), case, kw, doc)
            ctx.state()


def hooks(ctx):
    """functions that return values of the declared type; several places for
    one key; documents for collections"""
    def case(doc):
        leafp = Property(isa=U.JLeaf, json_name="L",
                         json_in=lambda v: U.JLeaf(a=v),
                         json_out=lambda v: v.a)
        T = rt(JsonRecord, leaf=leafp,
               plain=Property(isa=U.Leaf, json_in=lambda v: U.Leaf(a=v),
                              json_out=lambda v: v.a),
               jl=JsonListProperty(
                   of=U.JLeaf,
                   json_in=lambda v: U.TYPES["JLeafList"](
                       values=[U.JLeaf(a=x) for x in v]),
                   json_out=lambda v: [x.a for x in v]),
               items=JsonListProperty(
                   of=U.JLeaf, json_in=lambda v: v["data"],
                   json_out=lambda v: {"data": to_json(v)}))
        frozen = copy.deepcopy(doc)
        for o in (T(doc), from_json(T, doc), T(json.dumps(doc))):
            if "L" in doc:
                expect(type(o.leaf) is U.JLeaf and o.leaf.a == doc["L"],
                       "%r", o)
            if "plain" in doc:
                expect(type(o.plain) is U.Leaf and
                       o.plain.a == doc["plain"], "%r", o)
            if "jl" in doc:
                expect([x.a for x in o.jl] == doc["jl"] and all(
                    type(x) is U.JLeaf for x in o.jl), "%r", o)
            if "items" in doc:
                expect([x.a for x in o.items] == [
                    x["A"] for x in doc["items"]["data"]], "%r", o)
            expect(jsame(to_json(o), frozen), "and back: %r", to_json(o))
            expect(jsame(doc, frozen), "the input became %r", doc)
        ctx.step(3)
    full = {"L": 1, "plain": 2, "jl": [1, 2],
            "items": {"data": [{"A": 1}, {"A": 2}]}}
    for n in range(len(full) + 1):
        for ks in itertools.combinations(sorted(full), n):
            ctx.run(("functions", ks), case,
                    {k: copy.deepcopy(full[k]) for k in ks})
            ctx.state()

    def coll(T, items, form):
        plain = [dict(x) for x in items]
        doc = plain if issubclass(T, ListCollection) else {
            "k%d" % i: x for i, x in enumerate(plain)}
        frozen = copy.deepcopy(doc)
        d = {"parsed": lambda: doc, "text": lambda: json.dumps(doc),
             "bytes": lambda: json.dumps(doc).encode(),
             "tuple": lambda: tuple(doc) if isinstance(doc, list) else
             doc}[form]()
        for o in (T(d), from_json(T, d), T.from_json(d)):
            vals = list(o) if isinstance(o, ListCollection) else [
                v for k, v in sorted(o.items())]
            expect(len(vals) == len(items) and all(
                type(v) is U.JLeaf for v in vals), "%r", o)
            expect(jsame(to_json(o), frozen), "%r", to_json(o))
            expect(jsame(doc, frozen), "the input became %r", doc)
            for v in vals:
                if v.__dict__.get("unknown_json_keys"):
                    stir(v.unknown_json_keys)
            expect(jsame(doc, frozen), "the input became %r", doc)
        ctx.step(3)
    pool = [{}, {"A": 1}, {"A": 1, "u": {"v": []}}, {"b": None, "u": 1}]
    for T in (U.JNList, U.JNDict, U.TYPES["JLeafList"], U.TYPES["JLeafMap"]):
        for form in ("parsed", "text", "bytes", "tuple"):
            for n in range(0, 3):
                for items in itertools.product(pool, repeat=n):
                    ctx.run(("collection", T.__name__, form, items), coll, T,
                            items, form)
                    ctx.state()


def inherited_keys(ctx):
    """JSON keys of inherited and redeclared properties"""
    def case(first, second, how, doc):
        def prop(v):
            if v == "-":
                return Property(isa=int)
            return Property(isa=int, json_name=v)
        A = rt(JsonRecord, p=prop(first), q=Property(json_name="Q"))
        if how == "same":
            B, key = rt(A, r=Property()), first
        elif how == "redeclared":
            B, key = rt(A, p=prop(second)), second
        else:
            A2 = rt(A, p=prop(second))
            B, key = rt(A2, r=Property()), second
        key = "p" if key == "-" else key
        for T, k in ((B, key), (A, "p" if first == "-" else first)):
            o = T(doc)
            rest = dict(doc)
            if k is not None and k in rest:
                expect(o.p == rest.pop(k), "%s: %r", k, o)
            else:
                expect("p" not in vars(o), "%r", o)
            if "Q" in rest:
                expect(o.q == rest.pop("Q"), "%r", o)
            if "r" in T.properties and "r" in rest:
                expect(o.r == rest.pop("r"), "%r", o)
            expect(jsame(getattr(o, "unknown_json_keys", {}), rest),
                   "%r, expected %r", o, rest)
            expect(jsame(o.json_data(extraneous=True), doc), "%r, expected "
                   "%r", o.json_data(extraneous=True), doc)
            ctx.step()
    for first, second in itertools.product(("-", "x", None), repeat=2):
        for how in ("same", "redeclared", "between"):
            for ks in itertools.product((0, 1), repeat=5):
                doc = {k: i for i, (k, on) in enumerate(zip(
                    ("p", "q", "x", "Q", "r"), ks)) if on}
                ctx.run((first, second, how, doc), case, first, second, how,
                        doc)
                ctx.state()


# -- C16 -----------------------------------------------------------------------

class EOwn(Exception):
    """an exception class of the application"""


E_RAISED = {"K": KeyError, "A": AttributeError, "I": IndexError,
            "R": RuntimeError, "N": NotImplementedError, "S": StopIteration,
            "O": EOwn, "U": UnicodeError, "X": NormalizeError,
            "M": MemoryError, "E": AssertionError}


def e_raise(v):
    """application code failing in every kind of way"""
    if isinstance(v, str) and v in E_RAISED:
        raise E_RAISED[v](v)
    if v == "zz":
        return False
    return True


def e_in(v):
    e_raise(v)
    return 1 // v


class ELeaf(JsonRecord):
    a = Property(isa=int, json_name="A")
    c = Property(json_name="C", check=e_raise)
    # has a use for null, and for other empty values
    z = Property(isa=int, json_name="Z",
                 json_in=lambda v: -1 if v is None else -2 if v == "" else v,
                 json_out=lambda v: {-1: None, -2: ""}.get(v, v))
    j = Property(json_in=e_in)


class EPlain(Record):
    a = Property(isa=int, json_name="A")
    c = Property(json_name="C", check=e_raise)
    leaf = Property(isa=ELeaf, json_name="L")


class ENode(JsonRecord):
    leaf = Property(isa=ELeaf, json_name="theLeaf")
    jl = JsonListProperty(of=ELeaf, json_name="j l")
    jd = JsonDictProperty(of=ELeaf)
    pl = ListProperty(of=ELeaf)
    pd = DictProperty(of=ELeaf, json_name="p.d")
    plain = Property(isa=EPlain)
    plains = ListProperty(of=EPlain)
    jplains = JsonListProperty(of=EPlain, json_name="JP")
    jdplains = JsonDictProperty(of=EPlain, json_name="JD")
    dplains = DictProperty(of=EPlain, json_name="d plains")
    lol = ListProperty(of=list_of(ELeaf))
    ints = ListProperty(of=int)
    n = Property(isa=int)


class ERoot(JsonRecord):
    node = Property(isa=ENode, json_name="theNode")
    nodes = JsonListProperty(of=ENode)
    pnodes = ListProperty(of=ENode)
    dnodes = JsonDictProperty(of=ENode, json_name="d.n")
    n = Property(isa=int)


class EPlainRoot(Record):
    node = Property(isa=ENode, json_name="theNode")
    nodes = ListProperty(of=ENode)
    plain = Property(isa=EPlain)


class EList(JsonRecordList):
    itemtype = ENode


class EDict(JsonRecordDict):
    itemtype = ENode


class EPlainList(JsonRecordList):
    itemtype = EPlain


class EPlainDict(JsonRecordDict):
    itemtype = EPlain


# the shape of each type's documents: key -> (kind, item type name)
E_SHAPE = {
    "ELeaf": {"A": ("int",), "C": ("check",), "j": ("j",), "Z": ("nul",)},
    "EPlain": {"A": ("int",), "C": ("check",), "L": ("rec", "ELeaf")},
    "ENode": {"theLeaf": ("rec", "ELeaf"), "j l": ("jlist", "ELeaf"),
              "jd": ("jdict", "ELeaf"), "pl": ("list", "ELeaf"),
              "p.d": ("dict", "ELeaf"), "plain": ("rec", "EPlain"),
              "plains": ("list", "EPlain"), "JP": ("jlist", "EPlain"),
              "JD": ("jdict", "EPlain"), "d plains": ("dict", "EPlain"),
              "lol": ("lol", "ELeaf"), "ints": ("ints",), "n": ("int",)},
    "ERoot": {"theNode": ("rec", "ENode"), "nodes": ("jlist", "ENode"),
              "pnodes": ("list", "ENode"), "d.n": ("jdict", "ENode"),
              "n": ("int",)},
    "EPlainRoot": {"theNode": ("rec", "ENode"), "nodes": ("list", "ENode"),
                   "plain": ("rec", "EPlain")},
}
E_TYPES = dict(ELeaf=ELeaf, EPlain=EPlain, ENode=ENode, ERoot=ERoot,
               EPlainRoot=EPlainRoot, EList=EList, EDict=EDict,
               EPlainList=EPlainList, EPlainDict=EPlainDict)


def e_docs(tname, depth):
    """a document with every key, each collection with two members"""
    doc = {}
    for key, spec in E_SHAPE[tname].items():
        k = spec[0]
        if k == "int":
            doc[key] = 3
        elif k in ("j", "check"):
            doc[key] = 1
        elif k == "nul":
            doc[key] = None if depth % 2 else ""
        elif k == "ints":
            doc[key] = [1, 2]
        elif depth > 0:
            sub = lambda: e_docs(spec[1], depth - 1)
            doc[key] = {"rec": sub, "jlist": lambda: [sub(), sub()],
                        "list": lambda: [sub(), sub()],
                        "jdict": lambda: {"x": sub(), "y.[0]": sub()},
                        "dict": lambda: {"x": sub(), "": sub()},
                        "lol": lambda: [[sub()], [sub(), sub()]]}[k]()
    return doc


BAD_RECORD = [5, "zz", [], [1], True]
BAD_LIST = {"jlist": [5, {"a": 1}]}
BAD_DICT = {"jdict": [5, [1]]}


def e_faults(tname, doc, path, is_root=True):
    """every (document path, bad value, expected error path): one value in
    the document cannot be converted"""
    for key, spec in E_SHAPE[tname].items():
        if key not in doc:
            continue
        k, v, at = spec[0], doc[key], path + [key]
        if k == "int":
            # the record holding it cannot be constructed
            for bad in ("zz", [1], {}, None):
                yield at, bad, path
        elif k == "nul":
            for bad in ("zz", [], {}):
                yield at, bad, path
        elif k == "j":
            # its own input function fails
            for bad in [0, "zz"] + sorted(E_RAISED):
                yield at, bad, at
        elif k == "check":
            # so does the check of the record holding it
            for bad in ["zz"] + sorted(E_RAISED):
                yield at, bad, path
        elif k == "ints":
            for i in range(len(v)):
                yield at + [i], "zz", path
        elif k == "rec":
            for bad in BAD_RECORD:
                if spec[1] == "EPlain" and bad == []:
                    continue
                if spec[1] == "EPlain":
                    # taken for the value itself, by its owner
                    yield at, bad, path
                else:
                    yield at, bad, at
            yield from e_faults(spec[1], v, at, False)
        else:
            for bad in BAD_LIST.get(k, []) + BAD_DICT.get(k, []):
                yield at, bad, at
            if k == "lol":
                members = [(at + [i, j], x) for i, y in enumerate(v)
                           for j, x in enumerate(y)]
            elif isinstance(v, list):
                members = [(at + [i], x) for i, x in enumerate(v)]
            else:
                members = [(at + [i], x) for i, x in v.items()]
            for mp, x in members:
                for bad in BAD_RECORD:
                    if spec[1] == "EPlain" and bad == []:
                        continue
                    if spec[1] == "EPlain" and k in ("list", "lol"):
                        yield mp, bad, path
                    else:
                        yield mp, bad, mp
                yield from e_faults(spec[1], x, mp, False)


def put_at(doc, path, value):
    doc = copy.deepcopy(doc)
    at = doc
    for p in path[:-1]:
        at = at[p]
    at[path[-1]] = value
    return doc


def resolves(doc, path):
    for p in path:
        doc = doc[p]
    return True


def tasks_C16(tier):
    thorough = tier == "thorough"
    tasks = []

    def faults(tname, depth):
        def run(ctx):
            T = E_TYPES[tname]
            member = "EPlain" if tname.startswith("EPlain") else "ENode"
            full = (
                [e_docs(member, depth - 1), e_docs(member, depth - 1)]
                if tname.endswith("List") else
                {"k": e_docs(member, depth - 1),
                 "": e_docs(member, depth - 1)} if tname.endswith("Dict") else
                e_docs(tname, depth))

            def good(doc):
                frozen = copy.deepcopy(doc)
                o = from_json(T, doc)
                expect(type(o) is T, "%r", o)
                expect(jsame(doc, frozen), "reading changed its input")
                expect(jsame(from_json(T, json.dumps(doc)).json_data(
                    extraneous=True) if hasattr(o, "json_data") else
                    to_json(o), to_json(o)), "text and data differ")
                ctx.step(2)

            def case(path, bad, want):
                doc = put_at(full, path, bad)
                frozen = copy.deepcopy(doc)
                for reader, d in (("from_json", doc),
                                  ("text", json.dumps(doc))) + (
                        (("constructor", doc),)
                        if issubclass(T, JsonRecord) else ()):
                    r = attempt(T if reader == "constructor" else
                                (lambda x: from_json(T, x)), d)
                    expect(r[0] == "exc", "%s accepted %r at %r: %r", reader,
                           bad, path, r[1])
                    expect(jsame(doc, frozen), "reading changed its input")
                    e = r[1]
                    if not want:
                        # not nested: the type's own error
                        expect(isinstance(e, (TypeError, ValueError,
                                              AttributeError,
                                              JsonConversionError)) or
                               type(e).__module__.startswith("normalize")
                               or isinstance(e, E_RAISED.get(
                                   bad if isinstance(bad, str) else None,
                                   ())),
                               "%r at %r: %r", bad, path, e)
                        expect(not isinstance(e, JsonConversionError),
                               "%r at %r: %r", bad, path, e)
                        continue
                    expect(isinstance(e, JsonConversionError),
                           "%r at %r: %s, not a conversion error: %s", bad,
                           path, type(e).__name__, e)
                    got = list(e.error_fs.selectors)
                    expect(got == want and
                           [type(x) for x in got] == [type(x) for x in want],
                           "%r at %r: the error says %r, expected %r", bad,
                           path, got, want)
                    expect(resolves(doc, got), "it is not in the document")
                    expect(e.error_fs.path in str(e), "its text: %s", e)
                    expect(not isinstance(e.sub_exception,
                                          JsonConversionError), "its cause "
                           "is another conversion error")
                    ctx.step()
            ctx.run((tname, "good"), good, full)
            if tname.endswith("List") or tname.endswith("Dict"):
                items = list(enumerate(full) if isinstance(full, list) else
                             full.items())
                fs = [f for i, x in items
                      for f in e_faults(member, x, [i], False)]
                # (an empty list makes an empty plain record)
                fs += [([i], b, [i]) for i, _ in items for b in BAD_RECORD
                       if member != "EPlain" or b != []]
            else:
                fs = list(e_faults(tname, full, []))
            for path, bad, want in fs:
                ctx.run((tname, path, bad), case, path, bad, want)
                ctx.state()
            ctx.bound(positions=len(fs))
        return run
    for tname in E_TYPES:
        depth = {"ELeaf": 0, "EPlain": 1, "ENode": 2, "ERoot": 3,
                 "EPlainRoot": 3, "EList": 3, "EDict": 3, "EPlainList": 2,
                 "EPlainDict": 2}[tname]
        tasks.append(("faults/" + tname, faults(tname, depth)))
    tasks.append(("missing-parts", good_documents))
    tasks.append(("objects for lists", objects_for_lists))
    return tasks


class OPlain(Record):
    n = Property(isa=int)


class OJson(JsonRecord):
    n = Property(isa=int)
    sub = Property(isa=OPlain)
    subs = ListProperty(of=OPlain)


class OHolder(Record):
    pl = ListProperty(of=OPlain)
    js = ListProperty(of=OJson)


class OJHolder(JsonRecord):
    pl = ListProperty(of=OPlain)
    js = ListProperty(of=OJson)
    one = Property(isa=OHolder)


def objects_for_lists(ctx):
    """a list of records may be given as an object: its values, in the order
    of their keys, are the items, and an error names the item's place among
    them"""
    keys = ("b", "a", "10", "9", "")

    def case(T, outer, name, ks, at, bad, want):
        ranks = sorted(ks)
        doc = {k: {"n": 1 + ranks.index(k)} for k in ks}
        o = from_json(T, dict(outer({name: copy.deepcopy(doc)})))
        l = o.one if "one" in vars(o) else o
        l = l.pl if name == "pl" else l.js
        expect([x.n for x in l] == list(range(1, len(ks) + 1)), "%r", l)
        if at is None:
            return
        doc[ks[at]] = bad
        d = outer({name: doc})
        frozen = copy.deepcopy(d)
        for dd in (d, json.dumps(d)):
            r = attempt(from_json, T, dd)
            expect(r[0] == "exc" and isinstance(r[1], JsonConversionError),
                   "%r: %r", d, r)
            got = list(r[1].error_fs.selectors)
            place = (["one"] if "one" in d else []) + [
                name, ranks.index(ks[at])] + want
            expect(got == place, "%r: the error says %r, not %r", d, got,
                   place)
            expect(jsame(d, frozen), "the input became %r", d)
        ctx.step(3)
    for T, outer, names in (
        (OHolder, lambda d: d, ("pl", "js")),
        (OJHolder, lambda d: d, ("pl", "js")),
        (OJHolder, lambda d: {"one": d}, ("pl", "js")),
    ):
        for name in names:
            bads = [({"n": "x"}, []), ({"sub": 1}, [])]
            if name != "pl":
                bads = [({"n": "x"}, []), (5, []), (["x"], []),
                        ({"sub": {"n": "x"}}, ["sub"]),
                        ({"n": 1, "subs": {"y": {}, "x": {"n": "z"}}},
                         ["subs", 0]),
                        ({"subs": {"x": {}, "y": {"n": "z"}}},
                         ["subs", 1])]
            for n in range(1, 5 if ctx.thorough else 4):
                for ks in itertools.permutations(keys, n):
                    ctx.state()
                    ctx.run((T.__name__, name, ks), case, T, outer, name, ks,
                            None, None, None)
                    for at in range(n):
                        for bad, want in bads:
                            ctx.run((T.__name__, name, ks, at, bad), case, T,
                                    outer, name, ks, at, bad, want)


def good_documents(ctx):
    """documents without a bad value never fail, whatever is missing"""
    full = e_docs("ENode", 2)

    def case(doc):
        for T, d, get in (
            (ENode, doc, lambda o: o), (ERoot, {"theNode": doc},
                                        lambda o: o.node),
            (ERoot, {"nodes": [doc]}, lambda o: o.nodes[0]),
            (ERoot, {"pnodes": [{}, doc]}, lambda o: o.pnodes[1]),
            (ERoot, {"d.n": {"k": doc}}, lambda o: o.dnodes["k"]),
            (EPlainRoot, {"nodes": [doc]}, lambda o: o.nodes[0]),
        ):
            o = from_json(T, d)
            n = get(o)
            expect(type(n) is ENode and len(
                [p for p in ENode.properties if p in vars(n)]) == len(doc),
                "%r", o)
            expect(jsame(to_json(n), doc), "%r, expected %r", to_json(n),
                   doc)
            ctx.step()
    keys = sorted(full)
    empties = {"j l": [], "jd": {}, "pl": [], "p.d": {}, "plains": [],
               "JP": [], "JD": {}, "d plains": {}, "lol": [[], []], "ints": [], "theLeaf": {},
               "plain": {}}
    for n in range(len(keys) + 1):
        for ks in itertools.combinations(keys, n):
            if 3 < n < len(keys) - 1 and not ctx.thorough:
                continue
            ctx.run(("some", ks), case,
                    {k: copy.deepcopy(full[k]) for k in ks})
            ctx.run(("empty", ks), case,
                    {k: copy.deepcopy(empties.get(k, full[k])) for k in ks})
            ctx.state(2)


# -- C17 -----------------------------------------------------------------------

def auto_docs(keys, depth, level):
    """JSON objects over some keys"""
    scalars = [1, "x", None, 1.5, True, []] if level else [1, None, []]
    vals = list(scalars)
    if depth:
        sub = list(auto_docs(keys[:2], depth - 1, 0))
        vals += sub
        vals += [[s] for s in sub[:6]]
        vals += [[sub[-1], {}], [{}, sub[1]], [1, sub[-1]], [[sub[-1]]],
                 [[1, 2], []], [{}, None]]
    yield {}
    for k in keys:
        for v in vals:
            yield {k: v}
    for k1, k2 in itertools.combinations(keys, 2):
        for v1, v2 in ((1, "x"), (vals[-1], {"b": 1}), (None, vals[-3])):
            yield {k1: v1, k2: v2}


def under(key):
    """the reference conversion of keys: an underscore where a capital
    follows a small letter or digit"""
    out = ""
    for i, c in enumerate(key):
        if i and c.isascii() and c.isupper() and key[i - 1].isascii() and (
                key[i - 1].islower() or key[i - 1].isdigit()):
            out += "_" + c.lower()
        else:
            out += c
    return out


def offered(value, v, T, convert):
    """is this how a schema-less record offers a JSON value?"""
    if isinstance(v, dict):
        expect(type(value) is T, "an object is offered as %r", value)
        keys = {(under(k) if convert else k): x for k, x in v.items()}
        for k, x in keys.items():
            r = attempt(getattr, value, k)
            expect(r[0] == "ok", "no attribute %r of %r", k, value)
            offered(r[1], x, T, convert)
        for k in ("missing", "a2", "camelCase", "camel_case", "a_b"):
            if k not in keys:
                r = attempt(getattr, value, k)
                expect(r[0] == "exc" and isinstance(r[1], AttributeError),
                       "attribute %r: %r", k, r[1])
                expect(not hasattr(value, k), "has %r", k)
        expect(set(value.unknown_json_keys) == set(keys), "%r", value)
    elif isinstance(v, list) and v and all(isinstance(x, dict) for x in v):
        expect(isinstance(value, ListCollection) and len(value) == len(v),
               "a list of objects is offered as %r", value)
        for x, y in zip(value, v):
            offered(x, y, T, convert)
    elif isinstance(v, list):
        expect(isinstance(value, list) and len(value) == len(v),
               "a list is offered as %r", value)
        expect(json.dumps(v) == json.dumps(to_json(value)), "%r", value)
    else:
        expect(type(value) is type(v) and value == v, "%r for %r", value, v)


def tasks_C17(tier):
    thorough = tier == "thorough"
    tasks = []
    FLAVOURS = {"auto": (AutoJsonRecord, True),
                "nc": (NCAutoJsonRecord, False)}

    def documents(flavour, depth, keys):
        T, convert = FLAVOURS[flavour]

        def run(ctx):
            def case(doc):
                frozen = copy.deepcopy(doc)
                text = json.dumps(doc)
                for o in (T(doc), from_json(T, doc), T(text),
                          T.from_json(doc), from_json(T, text.encode())):
                    offered(o, frozen, T, convert)
                    for out in (to_json(o), to_json(o, extraneous=False),
                                o.json_data(), o.json_data(extraneous=True)):
                        standard(out)
                        expect(jsame(out, frozen), "JSON data %r, expected "
                               "%r", out, frozen)
                    again = T(o.json_data())
                    expect(again == o and not (again != o), "%r != %r",
                           again, o)
                    expect(jsame(doc, frozen), "its input became %r", doc)
                # nothing is shared with the input
                o = T(doc)
                stir(doc)
                expect(jsame(o.json_data(), frozen), "changing the input "
                       "changed the record to %r", o)
                ctx.step(6)
            for doc in auto_docs(keys, depth, 1):
                ctx.run((flavour, doc), case, copy.deepcopy(doc))
                ctx.state()
        return run

    def histories(flavour, depth):
        T, convert = FLAVOURS[flavour]
        start = {"a": 1, "camelCase": {"b": 2, "inNer": [{"c": 3}]},
                 "li": [{"d": 4}, {}], "mixed": [1, {"e": 5}]}

        def run(ctx):
            camel = "camel_case" if convert else "camelCase"
            inner = "in_ner" if convert else "inNer"
            ops = []
            for attr in ("a", camel, "li", "mixed", "new", "new_name"):
                for v in (1, "x", None, {"b": 1}, [1, 2], [{"b": 1}]):
                    ops.append(("set", attr, v))
                ops.append(("del", attr))
            ops.append(("inner-set", "b", 9))
            ops.append(("inner-set", "fresh", [1]))
            ops.append(("inner-del", "b"))
            ops.append(("item-set", "d", 9))
            ops.append(("item-append",))
            ops.append(("dump",))

            def out_key(k):
                if not convert:
                    return k
                o = ""
                i = 0
                while i < len(k):
                    if k[i] == "_" and 0 < i < len(k) - 1 and \
                            k[i + 1].islower() and (
                                k[i - 1].islower() or k[i - 1].isdigit()):
                        o += k[i + 1].upper()
                        i += 2
                    else:
                        o += k[i]
                        i += 1
                return o

            def play(hist):
                o = T(copy.deepcopy(start))
                # the model is the document itself
                m = copy.deepcopy(start)
                for op in hist:
                    if op[0] == "set":
                        v = copy.deepcopy(op[2])
                        setattr(o, op[1], v)
                        m[out_key(op[1])] = copy.deepcopy(op[2])
                        got = getattr(o, op[1])
                        expect(to_json(got) == op[2], "%s reads %r", op[1],
                               got)
                    elif op[0] == "del":
                        k = out_key(op[1])
                        r = attempt(delattr, o, op[1])
                        if k in m:
                            expect(r[0] == "ok", "del %s: %r", op[1], r[1])
                            del m[k]
                        else:
                            expect(r[0] == "exc" and isinstance(
                                r[1], AttributeError), "del %s: %r", op[1],
                                r[1])
                        expect(not hasattr(o, op[1]), "%s is still there",
                               op[1])
                    elif op[0] in ("inner-set", "inner-del"):
                        sub = m.get("camelCase")
                        got = getattr(o, camel, None)
                        if not (isinstance(sub, dict) and
                                isinstance(got, T)):
                            continue
                        if op[0] == "inner-set":
                            setattr(got, op[1], copy.deepcopy(op[2]))
                            sub[op[1]] = copy.deepcopy(op[2])
                        else:
                            r = attempt(delattr, got, op[1])
                            expect((r[0] == "ok") == (op[1] in sub), "%r", r)
                            sub.pop(op[1], None)
                    elif op[0] in ("item-set", "item-append"):
                        li = getattr(o, "li", None)
                        if not isinstance(li, ListCollection):
                            continue
                        if op[0] == "item-set":
                            setattr(li[0], op[1], op[2])
                            m["li"][0][op[1]] = op[2]
                        else:
                            li.append({"z": 1})
                            m["li"].append({"z": 1})
                            expect(type(li[-1]) is T and li[-1].z == 1,
                                   "%r", li)
                    want = m
                    for out in (o.json_data(), o.json_data(extraneous=True)):
                        expect(jsame(out, want), "after %r: JSON data %r, "
                               "expected %r", hist, out, want)
                    for k in want:
                        a = under(k) if convert else k
                        expect(jsame(to_json(getattr(o, a)), want[k]),
                               "after %r, %s is %r", hist, a,
                               getattr(o, a))
                return m
            names = "auto" + flavour
            ctx.bfs(names, [("dump",)], lambda m: ops, play,
                    lambda m: json.dumps(m, sort_keys=True) + str(
                        sorted(m)), 3 if ctx.thorough else 2,
                    max_states=400000)
        return run
    for flavour in FLAVOURS:
        for depth in (0, 1, 2):
            tasks.append(("documents/%s/%d" % (flavour, depth), documents(
                flavour, depth, ["a", "aB", "a1X", "abCdEf", "B"]
                if depth < 2 or thorough else ["a", "aB"])))
        tasks.append(("histories/" + flavour, histories(flavour, 3)))
    tasks.append(("keys", auto_keys))
    return tasks


def auto_keys(ctx):
    """every short key, alone and with others it might collide with"""
    def case(keys, convert):
        T = AutoJsonRecord if convert else NCAutoJsonRecord
        if convert and len({under(k) for k in keys}) < len(keys):
            return
        for value in (1, {"x": 1}, [{"y": 2}], None, False, "", [], {}):
            doc = {k: copy.deepcopy(value) for k in keys}
            o = T(doc)
            for k in keys:
                offered(getattr(o, under(k) if convert else k), value, T,
                        convert)
            expect(jsame(o.json_data(), doc), "JSON data %r, expected %r",
                   o.json_data(), doc)
            expect(jsame(T({"deep": [doc]}).json_data(), {"deep": [doc]}),
                   "nested: %r", T({"deep": [doc]}).json_data())
            ctx.step(2)
    chars = "aB1c"
    words = []
    for n in range(1, 5 if ctx.thorough else 4):
        for w in itertools.product(chars, repeat=n):
            words.append("".join(w))
    words += ["camelCase", "aBC", "ABC", "HTTPServer", "id", "x-y", "a b",
              "\u00e9T", "a.b", ""]
    for convert in (True, False):
        ws = words + ([] if convert else ["a_b", "_a", "a_", "a__b", "A_b",
                                          "a_B"])
        for w in ws:
            ctx.run((w, convert), case, (w,), convert)
            ctx.state()
        for p in itertools.permutations(ws[:20] + ws[-8:], 2):
            ctx.run((p, convert), case, p, convert)
            ctx.state()
