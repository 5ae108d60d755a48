"""C01-C05: record slots."""
import copy
import itertools
import pickle

import normalize.exc as exc
from normalize import (Record, JsonRecord, Property, SafeProperty,
                       ListProperty, DictProperty, LazyProperty, ROProperty,
                       JsonProperty, V1Property, to_json)
from normalize.coll import ListCollection, DictCollection, list_of, dict_of
from normalize.subtype import subtype

from .core import expect, fail, attempt, subsets
from .slots import Decl, Coercer, SlotWorld, UNSET


# -- shared types ------------------------------------------------------------

class MyInt(int):
    pass


class MyStr(str):
    pass


class R(Record):
    a = Property(isa=int)


class RSub(R):
    b = Property()


class Odd(object):
    """a type that cannot be constructed from anything"""
    def __init__(self):
        self.tag = "odd"

    def __repr__(self):
        return "Odd()"


ODD = Odd()


class Weird(object):
    """compares equal to everything, is false, cannot be coerced"""
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None

    def __bool__(self):
        return False

    def __repr__(self):
        return "Weird()"


WEIRD = Weird()
INTS = list_of(int)
SMALL = subtype("SMALL", of=int, where=lambda x: x < 5, coerce=int)


def con(v):
    return lambda: v


def not7(v):
    return v != 7 and v >= 0


def shorter(v):
    return len(v) < 2


def truthy(v):
    return bool(v)


def _coerce_any(v):
    """a coerce function with every kind of outcome"""
    if v == "5" and isinstance(v, str):
        return 5
    if v == "7" and isinstance(v, str):
        return 7
    if v == "m":
        return MyInt(9)
    if v == "n":
        return None
    if v == "w":
        return "wrong"
    if v == "x":
        raise ValueError("x")
    if v == "k":
        raise KeyError("k")
    if v == "a":
        raise AttributeError("a")
    if v == "c":
        raise exc.CoerceError(prop="p", passed=v, exc="e", func="f",
                              valuetype="t")
    raise TypeError("no")


def _coerce_union(v):
    """a coerce function of a union: may return a value of the type it got, of
    either member, of neither, or of a subclass"""
    if isinstance(v, str):
        t = v.strip()
        if t == "7":
            return 7
        if t == "f":
            return 1.5
        if t == "m":
            return MyInt(9)
        if t == "n":
            return None
        if t == "s":
            return MyStr("s")
        return t
    if isinstance(v, list):
        return v
    if isinstance(v, R):
        return v.a
    raise KeyError(v)


VALUES = {
    "unionc": {
        "zero": con(0), "f0": con(0.0), "seven": con(7), "t7": con(" 7"),
        "true": con(True), "f": con("f"), "m": con("m"), "n": con("n"),
        "s": con("s"), "w": con(" w "), "list": lambda: [1], "none": con(None),
        "r": lambda: R(a=1), "r0": lambda: R(), "tup": con((1,)),
    },
    "int": {
        "zero": con(0), "one": con(1), "seven": con(7), "neg": con(-1),
        "true": con(True), "big": con(2 ** 70), "myint": con(MyInt(3)),
        "t5": con("5"), "t7": con("7"), "f3": con(3.5), "x": con("x"),
        "none": con(None), "odd": con(ODD), "list": lambda: [],
    },
    "intc": {
        "zero": con(0), "one": con(1), "seven": con(7), "false": con(False),
        "myint": con(MyInt(3)), "f1": con(1.0),
        "t5": con("5"), "t7": con("7"), "m": con("m"), "n": con("n"),
        "w": con("w"), "x": con("x"), "k": con("k"), "a": con("a"),
        "c": con("c"), "none": con(None),
    },
    "str": {
        "empty": con(""), "a": con("a"), "long": con("abc"),
        "mystr": con(MyStr("q")), "five": con(5), "none": con(None),
        "bytes": con(b"z"), "zero": con(0),
    },
    "union": {
        "zero": con(0), "a": con("a"), "empty": con(""), "f": con(1.5),
        "none": con(None), "list": lambda: ["a"],
    },
    "rec": {
        "r": lambda: R(a=1), "r0": lambda: R(), "sub": lambda: RSub(a=1, b=2),
        "d": lambda: {"a": 1}, "dc": lambda: {"a": "1"}, "d0": lambda: {},
        "bad": lambda: {"a": "x"}, "unk": lambda: {"zz": 1},
        "none": con(None), "five": con(5), "odd": con(ODD),
    },
    "any": {
        "zero": con(0), "a": con("a"), "empty": con(""), "none": con(None),
        "list": lambda: [1], "odd": con(ODD), "weird": con(WEIRD),
    },
    "list": {
        "l": lambda: [1, 2], "e": lambda: [], "coll": lambda: INTS([3]),
        "collc": lambda: INTS([]), "lc": lambda: [1, "2"],
        "tup": lambda: (4,), "bad": lambda: [1, "x"], "badf": lambda: ["x", 1],
        "five": con(5), "text": con("12"), "none": con(None),
        "dict": lambda: {"k": "6"},
    },
    "dict": {
        "d": lambda: {"k": 1}, "e": lambda: {}, "dc": lambda: {"k": "1"},
        "coll": lambda: dict_of(int)({"z": 3}), "bad": lambda: {"k": "x"},
        "badl": lambda: {"j": 1, "k": "x"}, "l": lambda: ["3"],
        "text": con("12"), "none": con(None),
    },
    "sub": {
        "zero": con(0), "four": con(4), "five": con(5), "t4": con("4"),
        "t5": con("5"), "x": con("x"), "none": con(None), "true": con(True),
        "f": con(4.5),
    },
}

ISA = {
    "int": int, "intc": int, "str": str, "union": (int, str), "rec": R,
    "unionc": (int, float), "any": None, "list": INTS, "dict": dict_of(int), "sub": SMALL,
}
CHECK = {
    "int": not7, "intc": not7, "str": shorter, "union": truthy,
    "unionc": not7,
    "rec": lambda r: getattr(r, "a", 1) == 1, "any": lambda v: v is not ODD,
    "list": lambda l: len(l) < 2, "dict": lambda d: len(d) < 2,
    "sub": lambda v: v != 4,
}
# defaults: conforming, coercible, not conforming
DEFAULTS = {
    "int": (1, "5", "x"), "intc": (1, "5", "x"), "str": ("a", 5, None),
    "union": ("a", None, 1.5), "unionc": (1.5, " m", " w"), "rec": (lambda: R(a=1), lambda: {"a": 1},
                                       lambda: {"zz": 1}),
    "any": ("a", None, None), "list": (lambda: INTS([1]), lambda: ["2"],
                                       lambda: ["x"]),
    "dict": (lambda: dict_of(int)({"k": 1}), lambda: {"k": "1"},
             lambda: {"k": "x"}),
    "sub": (4, "3", 9),
}


def union_coerce(v):
    raise TypeError("a tuple is not callable")


LOGGED = {"intc": _coerce_any, "unionc": _coerce_union}


def make_decl(kind, check=False, required=False, default=None, lazy=False,
              ro=False, v1=None, prop=None, extra=None, json=False):
    """default: None, 'conf', 'coerce', 'bad', each called through a logged
    function, or 'const' (a constant)"""
    isa = ISA[kind]
    log = Coercer("log", LOGGED[kind]) if kind in LOGGED else None
    kw = dict(extra or {})
    calls = None
    if kind == "list":
        cls = ListProperty
        kw["of"] = int
    elif kind == "dict":
        cls = DictProperty
        kw["of"] = int
    else:
        cls = Property
        if isa:
            kw["isa"] = isa
    if prop:
        cls = prop
    if log:
        kw["coerce"] = log
    if check:
        kw["check"] = CHECK[kind]
    if required:
        kw["required"] = True
    dfn = None
    if default == "const":
        dv = DEFAULTS[kind][0]
        if callable(dv):
            dv = dv()
        kw["default"] = dv
        dfn = con(dv)
    elif default:
        src = DEFAULTS[kind][dict(conf=0, coerce=1, bad=2)[default]]
        calls = []
        gen = src if callable(src) else con(src)

        def dfn():
            v = gen()
            calls.append(v)
            return v
        kw["default"] = dfn
    if lazy:
        kw["lazy"] = True
    if ro:
        kw["traits"] = ["ro"]
    v1_none = None
    if v1 is not None:
        v1_none = v1[0]
        kw["v1_none"] = v1_none
    coerce = union_coerce if kind == "union" else None
    return Decl(
        make=lambda: cls(**kw), isa=isa, coerce=coerce,
        check=CHECK[kind] if check else None, required=required,
        default=dfn, lazy=lazy, ro=ro, v1=v1 is not None, v1_none=v1_none,
        log=log, default_calls=calls,
        safe=True if kind in ("list", "dict") and not ro else None,
        label="%s%s%s%s%s%s%s" % (
            kind, "+check" if check else "", "+required" if required else "",
            "+default=" + default if default else "", "+lazy" if lazy else "",
            "+ro" if ro else "",
            "+v1_none=%r" % (v1_none,) if v1 is not None else ""))


def make_class(decls, base=Record, name="W", **attrs):
    ns = {n: d.make() for n, d in decls.items()}
    ns.update(attrs)
    return type(base)(name, (base,), ns)


def single_world(decl, kind, base=Record, **kw):
    decls = {"x": decl}
    return SlotWorld(decls, {"x": VALUES[kind]}, make_class(decls, base),
                     exc=exc, **kw)


def explore(ctx, world, label, depth, unmerged):
    ctx.bfs(label, list(world.initials()), world.ops, world.build,
            world.canon, depth)
    if unmerged:
        ctx.paths(label + "/all", list(world.initials()), world.ops,
                  world.build, unmerged)


# -- C01 ---------------------------------------------------------------------

KINDS = sorted(ISA)


def decls_for(kind):
    defaults = [None, "conf", "coerce", "bad"]
    if kind != "dict":
        defaults.append("const")
    for check, required, default in itertools.product(
        (False, True), (False, True), defaults
    ):
        if kind == "any" and default == "coerce" and not required:
            continue
        yield dict(check=check, required=required, default=default)


def tasks_C01(tier):
    tasks = []

    def kind_task(kind, base, basename):
        def run(ctx):
            for opts in decls_for(kind):
                d = make_decl(kind, **opts)
                if not d.safe:
                    continue
                w = single_world(d, kind, base)
                # every (state, operation) pair; the space closes at depth 3
                explore(ctx, w, d.label, 6, 0)
                ctx.outcome(d.label)
            if ctx.thorough:
                for opts in (dict(), dict(check=True, default="coerce"),
                             dict(required=True)):
                    d = make_decl(kind, **opts)
                    if not d.safe:
                        continue
                    w = single_world(d, kind, base)
                    explore(ctx, w, d.label + "/deep", 6, 3)
            # lazy, typed
            for check, default in itertools.product(
                (False, True), ("conf", "coerce", "bad")
            ):
                d = make_decl(kind, check=check, default=default, lazy=True)
                if not d.safe:
                    continue
                explore(ctx, single_world(d, kind, base), d.label, 6, 0)
        return run

    for kind in KINDS:
        tasks.append(("slot/%s" % kind, kind_task(kind, Record, "Record")))
        if tier == "thorough" or kind in ("int", "rec", "list"):
            tasks.append(("slot/json/%s" % kind,
                          kind_task(kind, JsonRecord, "JsonRecord")))

    def pair_task(k1, k2):
        def run(ctx):
            few = {
                "int": ("one", "seven", "t5", "x"),
                "intc": ("one", "n", "t5", "w"),
                "str": ("a", "long", "five"),
                "rec": ("r", "d", "bad"),
                "list": ("coll", "lc", "bad"),
                "dict": ("coll", "dc", "bad"),
                "sub": ("four", "t4", "five"),
            }
            decls = {"x": make_decl(k1, check=True),
                     "y": make_decl(k2, default="coerce")}
            values = {"x": {k: VALUES[k1][k] for k in few[k1]},
                      "y": {k: VALUES[k2][k] for k in few[k2]}}
            w = SlotWorld(decls, values, make_class(decls), exc=exc)
            explore(ctx, w, "%s,%s" % (k1, k2), 6, 2 if ctx.thorough else 0)
        return run

    names = ["int", "intc", "str", "rec", "list", "dict", "sub"]
    for k1, k2 in itertools.permutations(names, 2):
        if tier == "quick" and names.index(k2) != (names.index(k1) + 1) % 7:
            continue
        tasks.append(("pair/%s,%s" % (k1, k2), pair_task(k1, k2)))
    tasks.append(("two-objects", two_objects))
    tasks.append(("derived-types", derived_types))
    return tasks


def two_objects(ctx):
    """Two live objects of the same type: operations on one never show in the
    other, nor in objects built later."""
    vals = VALUES["int"]
    keys = ("one", "t5", "x", "seven", "none")

    class T(Record):
        x = Property(isa=int, check=not7)
        y = ListProperty(of=int, default=lambda: [1])

    def ops():
        for o in (0, 1):
            for k in keys:
                yield (o, "set", k)
            yield (o, "del", None)
            yield (o, "append", None)

    def model_set(m, k):
        v = vals[k]()
        if not isinstance(v, int):
            try:
                v = int(v)
            except (TypeError, ValueError):
                return m
        return v if not7(v) else m

    def case(hist):
        objs = [T(x=1), T()]
        models = [1, UNSET]
        lists = [[1], [1]]
        for o, op, k in hist:
            if op == "set":
                attempt(setattr, objs[o], "x", vals[k]())
                models[o] = model_set(models[o], k)
            elif op == "del":
                attempt(delattr, objs[o], "x")
                models[o] = UNSET
            else:
                objs[o].y.append(len(lists[o]))
                lists[o].append(len(lists[o]))
            for i in (0, 1):
                got = getattr(objs[i], "x", UNSET)
                expect(got == models[i] and type(got) is type(models[i]),
                       "object %d reads %r, expected %r", i, got, models[i])
                expect(list(objs[i].y) == lists[i], "list of object %d is %r,"
                       " expected %r", i, list(objs[i].y), lists[i])
        ctx.step(len(hist))
        fresh = T()
        expect(getattr(fresh, "x", UNSET) is UNSET and list(fresh.y) == [1],
               "a new object starts with %r", fresh)

    depth = 4 if ctx.thorough else 3
    for n in range(1, depth + 1):
        for hist in itertools.product(list(ops()), repeat=n):
            ctx.run(hist, case, hist)
            ctx.state()
    ctx.bound(objects=2, depth=depth)


def derived_types(ctx):
    """Values of the property survive going through subclasses of the property
    and of the record, with every accepted trait combination."""
    from normalize.property import make_property_type
    p_int = make_property_type("PInt1", isa=int, check=not7)
    p_col = make_property_type("PCol1", base_type=ListProperty, of=int)

    class A(Record):
        x = p_int()
        y = p_col()

    class B(A):
        z = p_int(required=True)

    for cls, kw in ((A, {}), (B, {"z": 1})):
        decls = {"x": make_decl("int", check=True), "y": make_decl("list")}

        def build_cls(**k):
            k.update(kw)
            return cls(**k)
        vals = {"x": {k: VALUES["int"][k] for k in
                      ("one", "seven", "t5", "x", "none")},
                "y": {k: VALUES["list"][k] for k in
                      ("coll", "lc", "bad", "none")}}
        w = SlotWorld(decls, vals, build_cls, exc=exc)
        explore(ctx, w, cls.__name__, 6, 0)


# -- C02 ---------------------------------------------------------------------

def tasks_C02(tier):
    tasks = []

    def kind_task(kind, base):
        def run(ctx):
            for opts in decls_for(kind):
                d = make_decl(kind, **opts)
                w = single_world(d, kind, base, strict_errors=True)
                explore(ctx, w, d.label, 6, 2 if ctx.thorough else 0)
            for check, default in itertools.product(
                (False, True), ("conf", "coerce", "bad")
            ):
                for ro in (False, True):
                    d = make_decl(kind, check=check, default=default,
                                  lazy=True, ro=ro)
                    explore(ctx, single_world(d, kind, base,
                                              strict_errors=True),
                            d.label, 6, 0)
            for required, default in itertools.product(
                (False, True), (None, "conf")
            ):
                d = make_decl(kind, required=required, default=default,
                              ro=True)
                explore(ctx, single_world(d, kind, base, strict_errors=True),
                        d.label, 6, 0)
        return run

    def v1_task(kind):
        def run(ctx):
            for null in v1_nulls(kind):
                for check, required in itertools.product((False, True),
                                                         repeat=2):
                    d = make_decl(kind, check=check, required=required,
                                  v1=(null,))
                    explore(ctx, single_world(d, kind, Record,
                                              strict_errors=True),
                            d.label, 6, 0)
        return run

    for kind in KINDS:
        tasks.append(("slot/%s" % kind, kind_task(kind, Record)))
        if tier == "thorough":
            tasks.append(("slot/json/%s" % kind,
                          kind_task(kind, JsonRecord)))
        if kind not in ("list", "dict", "any"):
            tasks.append(("v1/%s" % kind, v1_task(kind)))
    for itype in ("int", "rec", "log", "sub", "list"):
        for owner in ("bare", "prop", "json"):
            if tier == "quick" and owner == "json" and itype != "rec":
                continue
            tasks.append(("list/%s/%s" % (owner, itype),
                          list_refusals(itype, owner)))
    for itype in ("int", "rec"):
        tasks.append(("dict/%s" % itype, dict_refusals(itype)))
    tasks.append(("nested", nested_refusals))
    return tasks


def _log_item(v):
    if isinstance(v, str):
        return 10 + int(v)
    raise KeyError(v)


class LogList(ListCollection):
    itemtype = int
    coerceitem = staticmethod(_log_item)


class JList(Record):
    pass


# item type -> (collection type, item type, good items, bad items)
def item_world(itype):
    if itype == "int":
        return (list_of(int), int, {"1": con(1), "2c": con("2")},
                {"x": con("x"), "N": con(None)})
    if itype == "rec":
        return (list_of(R), R, {"r": lambda: R(a=1), "d": lambda: {"a": 2}},
                {"b": lambda: {"a": "x"}, "u": lambda: {"zz": 1},
                 "5": con(5)})
    if itype == "log":
        return (LogList, int, {"1": con(1), "2c": con("2")},
                {"x": con("x"), "N": con(None)})
    if itype == "sub":
        return (list_of(SMALL), SMALL, {"1": con(1), "2c": con("2")},
                {"9": con(9), "9c": con("9"), "x": con("x")})
    if itype == "list":
        inner = list_of(int)
        return (list_of(inner), inner,
                {"c": lambda: inner([1]), "l": lambda: ["2"]},
                {"b": lambda: [1, "x"], "t": con("12"), "5": con(5)})
    raise KeyError(itype)


class Broken(Exception):
    pass


def _iterables(seq):
    """every way of handing over a sequence of items"""
    yield "list", lambda items: list(items)
    yield "tuple", lambda items: tuple(items)
    yield "gen", lambda items: (x for x in items)
    yield "iter", lambda items: iter(list(items))


def _broken_gen(items):
    for x in items:
        yield x
    raise Broken()


def list_refusals(itype, owner):
    def run(ctx):
        coll, it, good, bad = item_world(itype)
        items = dict(good)
        items.update(bad)
        if owner == "bare":
            def make(initial):
                o = coll([good[k]() for k in initial])
                return o, o
        else:
            base = JsonRecord if owner == "json" else Record

            class Owner(base):
                l = Property(isa=coll)
                other = Property(isa=int)

            def make(initial):
                o = Owner(l=[good[k]() for k in initial], other=3)
                return o, o.l

        singles = sorted(items)
        seqs = [s for n in (1, 2, 3) for s in itertools.product(singles,
                                                              repeat=n)
                if any(k in bad for k in s)]
        if not ctx.thorough:
            seqs = [s for s in seqs if len(s) < 3 or
                    sum(k in bad for k in s) == 1]
        forms = dict(_iterables(None))

        def state(o, l):
            return [(id(x), repr(x)) for x in l], repr(o)

        def go(initial, op, args):
            o, l = make(initial)
            objs = list(l)
            before = state(o, l)
            passed = [items[k]() for k in args[-1]] if op in (
                "extend", "slice", "assign", "init") else [items[args[-1]]()]
            snap = [repr(p) for p in passed]
            broken = False
            if op == "append":
                r = attempt(l.append, passed[0])
            elif op == "insert":
                r = attempt(l.insert, args[0], passed[0])
            elif op == "set":
                r = attempt(l.__setitem__, args[0], passed[0])
            elif op == "extend":
                broken = args[0] == "broken"
                f = _broken_gen if broken else forms[args[0]]
                r = attempt(l.extend, f(passed))
            elif op == "slice":
                sl, form, _ = args
                broken = form == "broken"
                f = _broken_gen if broken else forms[form]
                r = attempt(l.__setitem__, slice(*sl), f(passed))
            elif op == "assign":
                r = attempt(setattr, o, "l", forms[args[0]](passed))
            elif op == "init":
                r = attempt(coll, forms[args[0]](passed))
            ctx.step()
            expect(r[0] == "exc", "%s%r accepted a bad item", op, args)
            e = r[1]
            if broken and isinstance(e, Broken):
                pass
            else:
                expect(isinstance(e, TypeError) and
                       isinstance(e, exc.NormalizeError),
                       "%s%r refused with %r, not a library type error", op,
                       args, e)
            if owner != "bare":
                expect(o.l is l, "%s%r replaced the list", op, args)
            expect(state(o, l) == before, "%s%r was refused but left %r, was "
                   "%r", op, args, l, objs)
            expect([repr(p) for p in passed] == snap, "%s%r changed the "
                   "values passed in", op, args)
            # still usable
            k = sorted(good)[0]
            l.append(good[k]())
            expect(len(l) == len(objs) + 1, "unusable afterwards")

        goods = sorted(good)
        initials = [()] + [c for n in (1, 2, 3)
                           for c in itertools.product(goods, repeat=n)
                           if n < 3 or ctx.thorough or c == (goods[0],) * 3]
        fnames = sorted(forms) + ["broken"]
        for initial in initials:
            ctx.state()
            n = len(initial)
            for k in sorted(bad):
                cases = [("append", (k,))]
                cases += [("insert", (i, k)) for i in range(-n - 1, n + 2)]
                cases += [("set", (i, k)) for i in range(-n, n)]
                for op, args in cases:
                    ctx.run((initial, op, args), go, initial, op, args)
            few = initials.index(initial) > 3 and not ctx.thorough
            for s in seqs:
                if few and len(s) > 2:
                    continue
                for f in fnames:
                    ctx.run((initial, "extend", (f, s)), go, initial,
                            "extend", (f, s))
                    slices = [(a, b) for a in range(0, n + 1)
                              for b in range(a, n + 1)
                              if not few or (a, b) in ((0, n), (n, n))]
                    slices += [(None, None), (None, None, 2),
                               (None, None, -1), (1, None), (None, -1)]
                    for sl in slices:
                        args = (sl, f, s)
                        ctx.run((initial, "slice", args), go, initial,
                                "slice", args)
                for f in sorted(forms):
                    if owner != "bare":
                        ctx.run((initial, "assign", (f, s)), go, initial,
                                "assign", (f, s))
                    if initial == ():
                        ctx.run((initial, "init", (f, s)), go, initial,
                                "init", (f, s))
        ctx.bound(initial_len=3, passed_len=3)
    return run


def dict_refusals(itype):
    def run(ctx):
        _, it, good, bad = item_world(itype)
        coll = dict_of(it)

        def go(initial, op, args):
            d = coll({k: good[v]() for k, v in initial})
            before = [(k, id(v), repr(v)) for k, v in d.items()]
            if op == "set":
                p = bad[args[1]]()
                snap = repr(p)
                r = attempt(d.__setitem__, args[0], p)
                expect(repr(p) == snap, "changed the value")
            elif op == "init":
                r = attempt(coll, {k: (good.get(v) or bad[v])()
                                   for k, v in args})
            ctx.step()
            expect(r[0] == "exc", "%s%r accepted a bad item", op, args)
            expect(isinstance(r[1], TypeError) and
                   isinstance(r[1], exc.NormalizeError),
                   "%s%r refused with %r, not a library type error", op, args,
                   r[1])
            expect([(k, id(v), repr(v)) for k, v in d.items()] == before,
                   "%s%r was refused but left %r", op, args, d)
        goods = sorted(good)
        initials = [()]
        for n in (1, 2):
            for ks in itertools.combinations("abc", n):
                for vs in itertools.product(goods, repeat=n):
                    initials.append(tuple(zip(ks, vs)))
        for initial in initials:
            ctx.state()
            for k in "abcd":
                for b in sorted(bad):
                    ctx.run((initial, "set", (k, b)), go, initial, "set",
                            (k, b))
        for n in (1, 2, 3):
            for vs in itertools.product(sorted(good) + sorted(bad), repeat=n):
                if any(v in bad for v in vs):
                    args = tuple(zip("abc", vs))
                    ctx.run(((), "init", args), go, (), "init", args)
    return run


def nested_refusals(ctx):
    """A refused assignment deep in a tree, after any accepted ones, leaves
    the whole tree as it was."""
    class Leaf(Record):
        n = Property(isa=int, check=lambda v: v >= 0)
        r = Property(isa=int, required=True)

    class Mid(Record):
        leaf = Property(isa=Leaf)
        leaves = ListProperty(of=Leaf)

    class Top(Record):
        mid = Property(isa=Mid)
        mids = DictProperty(of=Mid)

    def fresh():
        return Top(
            mid=Mid(leaf=Leaf(n=1, r=1), leaves=[Leaf(r=2), Leaf(n=3, r=3)]),
            mids={"k": Mid(leaf=Leaf(r=4))})

    def target(t, where):
        for step in where:
            t = t[step] if not isinstance(step, str) or step == "k" \
                else getattr(t, step)
        return t

    good = [
        (("mid", "leaf"), "n", 5), (("mid", "leaves", 1), "n", "6"),
        (("mid",), "leaf", {"r": 7}), ((), "mid", {"leaves": [{"r": 8}]}),
        (("mids", "k", "leaf"), "r", 9),
    ]
    T, V, A = TypeError, ValueError, AttributeError
    bad = [
        (("mid", "leaf"), "n", -1, V), (("mid", "leaf"), "n", "x", T),
        (("mid", "leaf"), "r", None, T), (("mid",), "leaf", {"n": 1}, T),
        (("mid",), "leaf", {"n": -1, "r": 1}, T),
        (("mid",), "leaves", [{"r": 1}, {"n": 1}], T),
        (("mid",), "leaves", [{"r": 1}, {"n": "x", "r": 1}, {"r": 1}], T),
        ((), "mid", {"leaf": {"n": 1}}, T),
        ((), "mid", {"leaves": [{"r": 1}, {"n": 1}]}, T),
        ((), "mid", 5, T), ((), "mids", {"k": {"leaf": {"n": 1}}}, T),
        (("mids", "k"), "leaf", {"n": "x"}, T),
        (("mid", "leaf"), "r", "<del>", V),
        (("mid", "leaves", 0), "n", "<del>", A),
        (("mid", "leaf"), "zz", "<del>", A),
    ]

    def ids(o):
        if isinstance(o, (ListCollection,)):
            return [id(o)] + [ids(x) for x in o]
        if isinstance(o, DictCollection):
            return [id(o)] + [(k, ids(v)) for k, v in o.items()]
        if isinstance(o, Record):
            return [id(o)] + [(k, ids(v)) for k, v in sorted(
                vars(o).items())]
        return repr(o)

    def case(hist, b):
        t = fresh()
        for where, n, v in hist:
            try:
                setattr(target(t, where), n, v)
            except (KeyError, IndexError, AttributeError):
                return
        try:
            tgt = target(t, b[0])
        except (KeyError, IndexError, AttributeError):
            return
        if b[2] == "<del>" and b[1] == "n" and hasattr(tgt, "n"):
            return
        before = (ids(t), repr(t))
        if b[2] == "<del>":
            r = attempt(delattr, tgt, b[1])
        else:
            snap = repr(b[2])
            r = attempt(setattr, tgt, b[1], b[2])
            expect(repr(b[2]) == snap, "the passed value was changed")
        ctx.step(len(hist) + 1)
        expect(r[0] == "exc" and isinstance(r[1], b[3]),
               "%r gave %r, expected a %s", b[:3], r, b[3].__name__)
        if b[1] != "zz" and b[2] != "<del>":
            expect(isinstance(r[1], exc.NormalizeError), "%r", r)
        expect((ids(t), repr(t)) == before, "refused, but the tree is now %r",
               t)

    for n in (0, 1, 2, 3 if ctx.thorough else 2):
        for hist in itertools.product(good, repeat=n):
            ctx.state()
            for b in bad:
                ctx.run((hist, b[:3]), case, hist, b)


# -- C03 ---------------------------------------------------------------------

def tasks_C03(tier):
    tasks = []
    variants = c03_variants()
    labels = sorted(variants)

    def pair(l1):
        def run(ctx):
            for l2 in labels:
                construct_world(ctx, {"x": variants[l1], "y": variants[l2]})
            if ctx.thorough:
                for l2, l3 in itertools.combinations(labels, 2):
                    construct_world(ctx, {"x": variants[l1],
                                          "y": variants[l2],
                                          "z": variants[l3]}, few=True)
        return run

    for l in labels:
        tasks.append(("construct/%s" % l, pair(l)))
    tasks.append(("fresh-defaults", fresh_defaults))
    tasks.append(("unknown-names", unknown_names))
    tasks.append(("inherited", inherited_construction))
    return tasks


def c03_variants():
    v = {}
    for kind in ("int", "intc", "any", "rec", "list"):
        for required in (False, True):
            for default in (None, "conf", "coerce", "bad", "const"):
                if kind == "any" and default in ("coerce", "bad"):
                    continue
                if kind in ("rec", "list") and default == "const":
                    continue
                label = "%s%s%s" % (kind, "!" if required else "",
                                    "=" + default if default else "")
                v[label] = (kind, dict(required=required, default=default))
    v["int?"] = ("int", dict(check=True, default="conf"))
    v["lazy"] = ("int", dict(lazy=True, default="conf"))
    v["ro"] = ("int", dict(ro=True, default="conf"))
    v["ro!"] = ("int", dict(ro=True, required=True))
    return v


C03_VALUES = {
    "int": ("one", "t5", "x", "none"), "intc": ("one", "t5", "n", "w"),
    "any": ("a", "none"), "rec": ("r", "d", "bad"),
    "list": ("coll", "lc", "bad"),
}


def construct_world(ctx, spec, few=False):
    decls = {n: make_decl(k, **o) for n, (k, o) in spec.items()}
    values = {n: {v: VALUES[k][v] for v in
                  (C03_VALUES[k][:2] if few else C03_VALUES[k])}
              for n, (k, o) in spec.items()}
    cls = make_class(decls)

    def kwform(kw):
        return cls(**kw)

    def dictform(kw):
        snap = dict(kw)
        o = cls(kw)
        expect(kw == snap and list(kw) == list(snap) and
               all(kw[k] is snap[k] for k in snap),
               "the constructor changed its dictionary to %r", kw)
        return o

    label = ",".join("%s:%s" % (n, d.label) for n, d in sorted(decls.items()))

    def case(ev, order, form):
        def build(**kw):
            return (kwform if form == "kw" else dictform)(
                {n: kw[n] for n in order})
        w = SlotWorld(decls, values, build, exc=exc, strict_errors=True)
        s = w.build([ev])
        # defaults belong to the object: its own later life is checked by the
        # slot worlds, here the same history runs on a second object
        if s.obj is not None:
            for n, d in decls.items():
                if d.default and not d.lazy and d.default_calls is not None \
                        and n not in order:
                    expect(len(d.default_calls) == 1,
                           "default of %s evaluated %d times", n,
                           len(d.default_calls))
        return s.obj

    w0 = SlotWorld(decls, values, cls, exc=exc)
    for ev in w0.initials():
        names = [n for n, _ in ev[1]]
        objs = []
        ctx.state()
        for order in itertools.permutations(names):
            for form in ("kw", "dict"):
                ctx.step()
                objs.append(ctx.run((label, ev, order, form), case, ev, order,
                                    form))

        def agree():
            expect(all(o == objs[0] for o in objs),
                   "calling forms disagree: %r", objs)
        ctx.run((label, ev, "agree"), agree)


def fresh_defaults(ctx):
    """Default functions are called afresh for each object and methods receive
    it, in every combination of declarations and passed arguments."""
    class Probe(object):
        pass

    def declare(kinds, base):
        log = []

        def make(i, kind):
            name = "p%d" % i

            def fn():
                v = [len(log)]
                log.append((name, v, None))
                return v

            def meth(self):
                v = [len(log)]
                log.append((name, v, self))
                return v

            def old(obj):
                v = [len(log)]
                log.append((name, v, obj))
                return v

            class Callable(object):
                def __call__(self):
                    return fn()
            if kind == "fn":
                return Property(default=fn)
            if kind == "meth":
                return Property(default=meth)
            if kind == "old":
                return Property(default=old)
            if kind == "type":
                return Property(default=list)
            if kind == "listprop":
                return ListProperty(of=int, default=fn)
            if kind == "listmeth":
                return ListProperty(of=int, default=meth)
            if kind == "kwonly":
                return Property(default=lambda n=3: fn())
            if kind == "self+":
                return Property(default=lambda self, n=3: meth(self))
            if kind == "lazymeth":
                return Property(lazy=True, default=meth)
            if kind == "none":
                return Property(isa=list)
            raise KeyError(kind)
        cls = type(base)("F", (base,), {
            "p%d" % i: make(i, k) for i, k in enumerate(kinds)})
        return cls, log

    def case(kinds, base, passed):
        cls, log = declare(kinds, base)
        objs = []
        for rnd in range(3):
            n0 = len(log)
            mine = {p: ["mine"] if not kinds[int(p[1])].startswith("list")
                    else [9] for p in passed}
            o = cls(**mine)
            calls = log[n0:]
            for i, k in enumerate(kinds):
                p = "p%d" % i
                got = [c for c in calls if c[0] == p]
                if p in passed:
                    expect(not got, "default of passed %s was called", p)
                    if not k.startswith("list"):
                        expect(getattr(o, p) is mine[p], "passed value of %s "
                               "lost", p)
                    else:
                        expect(list(getattr(o, p)) == [9], "%s", o)
                    continue
                if k == "none":
                    expect(attempt(getattr, o, p)[0] == "exc",
                           "%s has a value", p)
                    continue
                if k == "lazymeth":
                    expect(not got, "lazy default called early")
                    v = getattr(o, p)
                    got = [c for c in log[n0:] if c[0] == p]
                if k == "type":
                    expect(getattr(o, p) == [], "%s is %r", p, getattr(o, p))
                    continue
                expect(len(got) == 1, "default of %s called %d times", p,
                       len(got))
                if k in ("meth", "old", "listmeth", "self+", "lazymeth"):
                    expect(got[0][2] is o, "default method of %s received %r",
                           p, got[0][2])
                if k.startswith("list"):
                    expect(list(getattr(o, p)) == got[0][1],
                           "%s is %r, default gave %r", p, getattr(o, p),
                           got[0][1])
                else:
                    expect(getattr(o, p) is got[0][1],
                           "%s is %r, default gave %r", p, getattr(o, p),
                           got[0][1])
            objs.append(o)
            ctx.step()
        # no sharing: change everything in one, look at the others
        snaps = [repr(o) for o in objs]
        for i, k in enumerate(kinds):
            p = "p%d" % i
            if p not in passed and k != "none":
                getattr(objs[1], p).append(77)
        expect(repr(objs[0]) == snaps[0] and repr(objs[2]) == snaps[2],
               "changing one object's defaults changed another's")

    kinds = ("fn", "meth", "old", "type", "listprop", "listmeth", "kwonly",
             "self+", "lazymeth", "none")
    for base in (Record, JsonRecord):
        for n in (1, 2, 3 if ctx.thorough else 2):
            for ks in itertools.product(kinds, repeat=n):
                ctx.state()
                for passed in subsets(["p%d" % i for i in range(n)]):
                    ctx.run((base.__name__, ks, passed), case, ks, base,
                            passed)


def unknown_names(ctx):
    """A name that is not a property is refused, wherever it stands among the
    arguments; so is mixing the two calling forms."""
    class U(Record):
        x = Property(isa=int)
        y = Property(required=True)
        method_attr = 5

        def meth(self):
            pass

        @property
        def prop(self):
            return 1

    class V(U):
        z = ListProperty(of=int)

    class J(JsonRecord):
        x = Property(isa=int)
        y = Property(required=True)

    L = type("L", (ListCollection,), dict(
        itemtype=int, x=Property(isa=int), y=Property(required=True)))

    bad = ("w", "X", "x0", "meth", "prop", "method_attr", "properties",
           "x ", "", "_x", "__dict__", "z")
    for cls in (U, V, J, L):
        for b in bad:
            if b == "z" and cls is V:
                continue
            for args in (("x", "y", b), ("y", b), (b,), ("x", b)):
                for order in itertools.permutations(args):
                    for form in ("kw", "dict"):
                        if form == "dict" and cls in (J, L):
                            continue

                        def case():
                            kw = {n: 1 for n in order}
                            if form == "kw":
                                r = attempt(lambda: cls(**kw))
                            else:
                                r = attempt(lambda: cls(kw))
                            ctx.step()
                            expect(r[0] == "exc", "%s accepted %r: %r",
                                   cls.__name__, order, r[1])
                            expect(isinstance(r[1], exc.NormalizeError),
                                   "refused with %r", r[1])
                        ctx.run((cls.__name__, order, form), case)
        ctx.state()

    def both(d, kw):
        r = attempt(lambda: U(d, **kw))
        ctx.step()
        if d and kw:
            expect(r[0] == "exc" and isinstance(r[1], exc.NormalizeError),
                   "accepted %r and %r together: %r", d, kw, r[1])
        else:
            merged = dict(d)
            merged.update(kw)
            if "y" in merged:
                expect(r[0] == "ok" and all(
                    getattr(r[1], k) == v for k, v in merged.items()),
                    "%r", r)
            else:
                expect(r[0] == "exc" and isinstance(r[1], ValueError), "%r",
                       r)
    for d in ({}, {"x": 1}, {"y": 2}, {"x": 1, "y": 2}):
        for kw in ({}, {"x": 1}, {"y": 2}, {"x": 1, "y": 2}):
            ctx.run(("both", d, kw), both, d, kw)


def inherited_construction(ctx):
    """Required and default declarations hold in subclasses, collections with
    properties and JSON records."""
    variants = {
        "req": (lambda: Property(required=True), True, None),
        "reqint": (lambda: Property(isa=int, required=True), True, None),
        "def": (lambda: Property(default=lambda: 5), False, 5),
        "defint": (lambda: Property(isa=int, default="7"), False, 7),
        "opt": (lambda: Property(isa=int), False, None),
        "reqdef": (lambda: Property(isa=int, required=True, default=4),
                   False, 4),
    }

    def case(base, va, vb, vb2, passed, depth):
        ns = {"a": variants[va][0]()}
        if base == "list":
            ns["itemtype"] = int
            A = type("A", (ListCollection,), ns)
        elif base == "dict":
            ns["itemtype"] = int
            A = type("A", (DictCollection,), ns)
        else:
            A = type("A", (Record if base == "rec" else JsonRecord,), ns)
        ns2 = {"b": variants[vb][0]()}
        eff = {"a": va, "b": vb}
        if vb2:
            ns2["a"] = variants[vb2][0]()
            eff["a"] = vb2
        B = type("B", (A,), ns2)
        for _ in range(depth):
            B = type("C", (B,), {})
        for cls, names in ((B, ("a", "b")), (A, ("a",))):
            e = eff if cls is B else {"a": va}
            kw = {n: 1 for n in passed if n in names}
            r = attempt(lambda: cls(**kw))
            ctx.step()
            missing = [n for n in names if n not in kw and
                       variants[e[n]][1]]
            if missing:
                expect(r[0] == "exc" and isinstance(r[1], ValueError) and
                       isinstance(r[1], exc.NormalizeError),
                       "%s built without %r: %r", cls.__name__, missing, r)
                continue
            expect(r[0] == "ok", "%s: %r", cls.__name__, r[1])
            for n in names:
                want = 1 if n in kw else variants[e[n]][2]
                got = attempt(getattr, r[1], n)
                if want is None:
                    expect(got[0] == "exc" and
                           isinstance(got[1], AttributeError), "%r", got)
                else:
                    expect(got == ("ok", want), "%s.%s is %r", cls.__name__,
                           n, got)

    vs = sorted(variants)
    for base in ("rec", "json", "list", "dict"):
        for va, vb in itertools.product(vs, repeat=2):
            for vb2 in [None] + vs:
                ctx.state()
                for passed in subsets(("a", "b")):
                    for depth in (0, 1):
                        ctx.run((base, va, vb, vb2, passed, depth), case,
                                base, va, vb, vb2, passed, depth)


# -- C04 ---------------------------------------------------------------------

def _pickle(o):
    pickle.dumps(o)


def observers(base, cls=None):
    from normalize.visitor import VisitorPattern
    from normalize.diff import diff
    rv = {
        "repr": (repr, False),
        "shallow": (copy.copy, False),
        "vars": (vars, False),
        "eq": (lambda o: o == o, True),
        "ne": (lambda o: o != o, True),
        "str": (str, True),
        "aux": (lambda o: o.x0, True),
        "diff": (lambda o: diff(o, o), True),
        "visit": (lambda o: VisitorPattern.visit(o), True),
    }
    if base is JsonRecord:
        rv["json"] = (lambda o: to_json(o), True)
    return rv


C04_VALUES = {
    "int": ("one", "t5", "x", "zero", "none"), "intc": ("one", "t5", "n"),
    "any": ("a", "list", "none", "zero"), "rec": ("r", "d", "bad"),
    "list": ("coll", "lc", "bad", "e"), "str": ("a", "five", "empty"),
}


def tasks_C04(tier):
    tasks = []

    def one(kind, base):
        def run(ctx):
            for default, check, required, lazy, ro in itertools.product(
                (None, "conf", "coerce", "bad"), (False, True), (False, True),
                (False, True), (False, True)
            ):
                if not (lazy or ro) or (lazy and default is None):
                    continue
                if kind == "any" and default in ("coerce", "bad"):
                    continue
                d = make_decl(kind, check=check, required=required,
                              default=default, lazy=lazy, ro=ro)
                obs = observers(base)
                if default == "bad":
                    obs = {k: v for k, v in obs.items() if not v[1]}
                if default is None or kind == "rec" or kind == "list":
                    obs.pop("json", None)
                w = SlotWorld(
                    {"x": d}, {"x": {k: VALUES[kind][k]
                                     for k in C04_VALUES[kind]}},
                    make_class({"x": d}, base), exc=exc, observers=obs)
                explore(ctx, w, d.label, 7, 3 if ctx.thorough and not (
                    check or required) else 2)
                ctx.outcome(d.label)
        return run

    for kind in sorted(C04_VALUES):
        for base in (Record, JsonRecord):
            tasks.append(("slot/%s/%s" % (base.__name__, kind),
                          one(kind, base)))
    tasks.append(("lazy-chain", lazy_chain))
    tasks.append(("read-only-forever", read_only_forever))
    return tasks


def lazy_chain(ctx):
    """Lazy methods reading other lazy slots: whatever the order of reads,
    writes and deletes, each default runs once per value and sees the values
    current at its first read."""
    def declare(base, typed):
        log = []

        def d_a(self):
            log.append("a")
            return [self.x]

        def d_b(self):
            log.append("b")
            return [self.a[0], self.x]

        def d_c(self):
            log.append("c")
            return [self.b[0], self.a[0]]
        isa = dict(isa=list) if typed else {}
        ns = dict(
            x=Property(isa=int),
            a=Property(lazy=True, default=d_a, **isa),
            b=Property(lazy=True, default=d_b, **isa),
            c=Property(lazy=True, default=d_c, traits=["ro"], **isa))
        return type(base)("Chain", (base,), ns), log

    events = [("x", 1), ("x", 2), ("get", "a"), ("get", "b"), ("get", "c"),
              ("set", "a"), ("set", "b"), ("set", "c"), ("del", "a"),
              ("del", "b"), ("del", "c"), ("repr",), ("eq",)]

    def case(hist, base, typed, init):
        cls, log = declare(base, typed)
        kw = {}
        m = {"x": 0}
        if "a" in init:
            m["a"] = kw["a"] = ["A"]
        if "c" in init:
            m["c"] = kw["c"] = ["C", "C"]
        o = cls(x=0, **kw)
        expect(log == [], "constructor evaluated %r", log)
        mlog = []

        def get(n):
            if n not in m:
                mlog.append(n)
                if n == "a":
                    m[n] = [m["x"]]
                elif n == "b":
                    m[n] = [get("a")[0], m["x"]]
                else:
                    m[n] = [get("b")[0], get("a")[0]]
            return m[n]
        for ev in hist:
            ctx.step()
            if ev[0] == "x":
                o.x = m["x"] = ev[1]
            elif ev[0] == "get":
                v = getattr(o, ev[1])
                w = get(ev[1])
                expect(v == w, "%s is %r, expected %r", ev[1], v, w)
                expect(getattr(o, ev[1]) is v, "second read differs")
            elif ev[0] == "set":
                v = ["S"]
                r = attempt(setattr, o, ev[1], v)
                if ev[1] == "c":
                    expect(r[0] == "exc" and isinstance(
                        r[1], AttributeError), "read-only set: %r", r)
                else:
                    expect(r[0] == "ok", "%r", r)
                    m[ev[1]] = v
            elif ev[0] == "del":
                r = attempt(delattr, o, ev[1])
                if ev[1] == "c" or ev[1] not in m:
                    expect(r[0] == "exc" and isinstance(
                        r[1], AttributeError), "del: %r", r)
                else:
                    expect(r[0] == "ok", "%r", r)
                    del m[ev[1]]
            elif ev[0] == "repr":
                repr(o)
            elif ev[0] == "eq":
                o == o
                # reads every property in some order
                for n in ("a", "b", "c"):
                    get(n)
                expect(sorted(log) == sorted(mlog), "evaluated %r, expected "
                       "%r", log, mlog)
                mlog[:] = log
            expect(log == mlog, "evaluated %r, expected %r", log, mlog)
    depth = 4 if ctx.thorough else 3
    for base, typed in itertools.product((Record, JsonRecord), (False, True)):
        for init in ("", "a", "c", "ac"):
            for n in range(1, depth + 1):
                if n == 4 and (base is JsonRecord or init == "ac"):
                    continue
                for hist in itertools.product(events, repeat=n):
                    ctx.state()
                    ctx.run((base.__name__, typed, init, hist), case, hist,
                            base, typed, init)
    ctx.bound(depth=depth)


def read_only_forever(ctx):
    """Nothing the API offers changes a read-only slot once it has a value."""
    from normalize.selector import FieldSelector, MultiFieldSelector

    def make(base, lazy, typed):
        kw = dict(isa=int) if typed else {}
        if lazy:
            kw.update(lazy=True, default=lambda: 1)
        T = type(base)("T", (base,), dict(
            x=Property(traits=["ro"], **kw), y=Property(isa=int)))
        return T
    fs = FieldSelector(["x"])
    mfs = MultiFieldSelector(["x"])
    ops = {
        "set": lambda o, T: setattr(o, "x", 2),
        "setsame": lambda o, T: setattr(o, "x", 1),
        "del": lambda o, T: delattr(o, "x"),
        "put": lambda o, T: fs.put(o, 2),
        "post": lambda o, T: fs.post(o, 2),
        "fsdel": lambda o, T: fs.delete(o),
        "patch": lambda o, T: mfs.patch(o, T(x=3)),
        "mfsdel": lambda o, T: mfs.delete(o),
        "sety": lambda o, T: setattr(o, "y", 2),
        "bady": lambda o, T: setattr(o, "y", "x"),
        "read": lambda o, T: o.x,
        "aux": lambda o, T: o.x0,
        "eq": lambda o, T: o == o,
        "repr": lambda o, T: repr(o),
        "copy": lambda o, T: copy.deepcopy(o),
    }

    def case(base, lazy, typed, given, hist):
        T = make(base, lazy, typed)
        o = T(x=1) if given else T()
        has = given
        for op in hist:
            r = attempt(ops[op], o, T)
            ctx.step()
            if op in ("set", "setsame", "del", "put", "post", "fsdel",
                      "patch", "mfsdel"):
                expect(r[0] == "exc" or (op == "fsdel" and not has),
                       "%s changed a read-only slot", op)
                if op in ("set", "setsame", "del"):
                    expect(isinstance(r[1], AttributeError), "%s raised %r",
                           op, r[1])
            if lazy and op in ("read", "aux", "eq"):
                has = True
            if has:
                expect(o.x == 1 and type(o.x) is int, "after %s x reads %r",
                       op, attempt(getattr, o, "x"))
        if not has and not lazy:
            expect(attempt(getattr, o, "x")[0] == "exc", "x has a value")
        if lazy:
            expect(o.x == 1, "x reads %r", o.x)
    depth = 3 if ctx.thorough else 2
    for base, lazy, typed, given in itertools.product(
        (Record, JsonRecord), (False, True), (False, True), (False, True)
    ):
        for n in range(1, depth + 1):
            for hist in itertools.product(sorted(ops), repeat=n):
                ctx.state()
                ctx.run((base.__name__, lazy, typed, given, hist), case, base,
                        lazy, typed, given, hist)
    ctx.bound(depth=depth)


# -- C05 ---------------------------------------------------------------------

def v1_nulls(kind):
    return {
        "int": (None, 0, "", False), "intc": (None, 0, ""),
        "str": (None, "", 0), "union": (None, 0, ""),
        "rec": (None, "", (), 1000), "unionc": (None, 0, "", ()), "any": (None, 0, "", ()), "list": (None,), "dict": (None,),
        "sub": (None, 0, 9),
    }[kind]


def tasks_C05(tier):
    tasks = []

    def explicit(kind, base, prop):
        def run(ctx):
            for null in v1_nulls(kind):
                for check, required, default in itertools.product(
                    (False, True), (False, True), (None, "conf", "coerce")
                ):
                    if kind == "any" and default == "coerce":
                        continue
                    if kind == "any" and required:
                        pass
                    d = make_decl(kind, check=check, required=required,
                                  default=default, v1=(null,), prop=prop)
                    values = dict(VALUES[kind])
                    values["null"] = con(null)
                    values["empty_text"] = con("")
                    values["zero"] = con(0)
                    if null == 1000:
                        # equal to it, and another object
                        values["alike"] = lambda: int("1000")
                    values.pop("weird", None)
                    vals = {"x": values}
                    obs = {"repr": (repr, False)}
                    if base is JsonRecord:
                        values.pop("odd", None)
                        obs["json"] = (v1_json(null), False)
                    w = SlotWorld({"x": d}, vals, make_class({"x": d}, base),
                                  exc=exc, observers=obs)
                    explore(ctx, w, d.label, 6,
                            2 if ctx.thorough or default is None else 0)
                    ctx.outcome(d.label)
        return run

    for kind in KINDS:
        if kind in ("list", "dict"):
            continue
        tasks.append(("explicit/Record/%s" % kind,
                      explicit(kind, Record, None)))
        tasks.append(("explicit/JsonRecord/%s" % kind,
                      explicit(kind, JsonRecord, None)))
        tasks.append(("implied/%s" % kind, implied(kind)))
    tasks.append(("refused-declarations", v1_refused))
    tasks.append(("mixed", v1_mixed))
    tasks.append(("odd-nulls", odd_nulls))
    return tasks


class Untouchable(object):
    """false, hashable, but nothing may be compared with it"""
    def __bool__(self):
        return False

    def __eq__(self, other):
        raise NotImplementedError("compared")

    __ne__ = __eq__
    __hash__ = object.__hash__


def odd_nulls(ctx):
    """null values of unusual types"""
    import decimal
    import fractions
    nulls = [b"", frozenset(), 0j, decimal.Decimal(0), fractions.Fraction(0),
             MyInt(0), MyStr(""), Untouchable(), range(0), (), 0.0, -0.0,
             False]

    def case(null, how, typed, base, hist):
        kw = {} if not typed else dict(
            isa={"own": type(null), "other": Odd,
                 "both": (Odd, type(null))}[typed])
        if how == "implied":
            p = Property(default=null, **kw)
        elif how == "option":
            p = Property(v1_none=null, **kw)
        else:
            p = V1Property(v1_none=null, **kw)
        T = type(base)("OddNull", (base,), dict(x=p, y=Property()))
        r = Odd()
        held = null
        if hist[0] == "construct" and typed != "own":
            o = T(x=r)
            held = r
        else:
            o = T()
        for op in hist[1:]:
            if op == "set":
                if typed == "own":
                    continue
                o.x = held = r
            elif op == "null":
                if typed == "other" and isinstance(null, Untouchable):
                    continue        # compared to tell that it's the null
                o.x = held = null
            elif op == "none":
                if typed == "own" and isinstance(null, str):
                    continue        # which makes a text of it
                if typed:
                    o.x = None
                    held = null
                else:
                    o.x = held = None
            elif op == "del":
                got = attempt(delattr, o, "x")
                expect(got[0] == "ok", "%r", got)
                held = null
            expect(o.x is held, "after %s: %r, not %r", op, o.x, held)
        expect(o.x is held, "%r, not %r", o.x, held)
        expect(attempt(getattr, o, "y")[0] == "exc", "y")
        ctx.step(len(hist))
    for null in nulls:
        for how in ("implied", "option", "type"):
            for typed in (None, "own", "other", "both"):
                for base in (Record, JsonRecord):
                    for n in range(3):
                        for h in itertools.product(
                                ("set", "null", "none", "del"), repeat=n):
                            for first in ("empty", "construct"):
                                ctx.state()
                                ctx.run((type(null).__name__, repr(null)
                                         if not isinstance(null, Untouchable)
                                         else "", how, typed, base.__name__,
                                         first) + h, case, null, how, typed,
                                        base, (first,) + h)


def v1_json(null):
    def f(o):
        from normalize import to_json
        data = to_json(o)
        if attempt(getattr, o, "x") == ("ok", null) and "x" in data:
            expect(data["x"] == null or isinstance(null, tuple),
                   "marshalled null value is %r, expected %r", data["x"],
                   null)
    return f


def implied(kind):
    """default=<falsy constant> makes the property null tolerant"""
    nulls = {"int": (None, 0, False, ""), "intc": (None, 0, ""),
             "str": (None, "", 0), "union": (None, "", 0),
             "unionc": (None, 0, "", ()), "rec": (None, "", ()), "any": (None, "", 0, False, (), 0.0),
             "sub": (None, 0, "")}[kind]

    def run(ctx):
        for null in nulls:
            for check, required, base in itertools.product(
                (False, True), (False, True), (Record, JsonRecord)
            ):
                d0 = make_decl(kind, check=check, required=required,
                               extra=dict(default=null))
                d = Decl(make=d0.make, isa=d0.isa, coerce=d0.coerce,
                         check=d0.check, required=required, v1=True,
                         v1_none=null, log=d0.log,
                         label="implied %r %s" % (null, d0.label))
                values = dict(VALUES[kind])
                values["null"] = con(null)
                values["zero"] = con(0)
                values.pop("weird", None)
                w = SlotWorld({"x": d}, {"x": values},
                              make_class({"x": d}, base), exc=exc)
                explore(ctx, w, base.__name__ + d.label, 6,
                        2 if ctx.thorough else 0)
                ctx.outcome(d.label)
    return run


def v1_refused(ctx):
    """Mutable null values are refused, and falsy defaults that cannot be null
    values stay ordinary defaults."""
    for base in (Property, V1Property):
        for null in ([], {}, set(), [1]):
            def case():
                r = attempt(base, v1_none=null)
                ctx.step()
                expect(r[0] == "exc" and isinstance(r[1], exc.NormalizeError),
                       "%r accepted as a null value: %r", null, r)
            ctx.run((base.__name__, repr(null)), case)
    for dflt in ([], {}, lambda: None, lambda: 0, list):
        def case():
            class T(Record):
                x = Property(default=dflt)
            o = T()
            want = dflt() if callable(dflt) else dflt
            expect("x" in vars(o) and o.x == want and
                   type(o.x) is type(want), "default %r gave %r", dflt,
                   vars(o))
            ctx.step()
        ctx.run(("default", repr(dflt)[:12]), case)
    ctx.state()


def v1_mixed(ctx):
    """Two null-tolerant slots and an ordinary one in one record do not
    influence each other."""
    for n1, n2, base in itertools.product((None, 0, ""), (None, 0, ""),
                                          (Record, JsonRecord)):
        decls = {"x": make_decl("int", v1=(n1,)),
                 "y": make_decl("rec", v1=(n2,)),
                 "z": make_decl("int")}
        vals = {"x": {"one": con(1), "null": con(n1), "none": con(None),
                      "bad": con("x")},
                "y": {"r": lambda: R(a=1), "null": con(n2), "bad": con(5)},
                "z": {"one": con(1), "none": con(None)}}
        w = SlotWorld(decls, vals, make_class(decls, base), exc=exc)
        explore(ctx, w, "%s %r %r" % (base.__name__, n1, n2), 8,
                2 if ctx.thorough else 0)
