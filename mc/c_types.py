"""C06 placeholders, C07 option composition, C08 inheritance, C32 subtypes,
C33 predefined typed properties."""
import copy
import datetime
import itertools
import numbers

import normalize.exc as exc
from normalize import (Record, JsonRecord, Property, SafeProperty,
                       ListProperty, DictProperty, LazyProperty, ROProperty,
                       LazySafeProperty, JsonProperty, SafeJsonProperty,
                       JsonListProperty, JsonDictProperty, V1Property,
                       make_property_type, to_json, from_json)
import normalize.property.types as PT
from normalize.coll import (Collection, ListCollection, DictCollection,
                            list_of, dict_of)
from normalize.subtype import subtype
from normalize.visitor import VisitorPattern

from .core import expect, fail, attempt, subsets, forked

UNSET = "<unset>"


# -- C06 ---------------------------------------------------------------------

ANY = "any"


class Text(str):
    """inherits everything from str"""


class Callable(object):
    marker = 1

    def __call__(self):
        return 1


class SubCallable(Callable):
    pass


class Open(object):
    """answers any attribute"""
    def __getattr__(self, name):
        return name


class SubOpen(Open):
    pass


class Opaque(object):
    visible = 3


def universe():
    """A fresh set of record types, with their description for the model:
    {type: (attrs, item, callable)}; attrs maps names to tuples of types or
    ANY; item is the same for subscripts (None: not subscriptable)."""
    class Leaf(Record):
        n = Property(isa=int)
        s = Property(isa=str)

        def meth(self):
            pass

    class Other(Record):
        n = Property(isa=Leaf)
        o = Property()

    class OtherSub(Other):
        extra = Property(isa=Text)

    LeafList = type("LeafList", (ListCollection,), dict(
        itemtype=Leaf, page=Property(isa=int)))
    LeafMap = type("LeafMap", (DictCollection,), dict(itemtype=Leaf))
    TreeList = type("TreeList", (ListCollection,), dict(itemtype=Leaf))

    class Tree(Record):
        kids = Property(isa=TreeList)
        up = Property(isa=OtherSub)
    TreeList.itemtype = Tree

    class Loose(Record):
        n = Property()
        s = Property(isa=Leaf)

    # two types which look the same from outside
    def twin(**kw):
        return type(Record)("Twin", (Record,), dict(kw, __module__=__name__))
    TwinA, TwinB = twin(n=Property(isa=int)), twin(s=Property(isa=Leaf))
    TwinList = type("TwinList", (ListCollection,), dict(itemtype=TwinB))

    class Top(Record):
        loose_a = Property(isa=(Leaf, Loose), coerce=lambda x: Leaf())
        loose_b = Property(isa=(Loose, Leaf), coerce=lambda x: Leaf())
        seqs_a = Property(isa=(LeafList, str), coerce=lambda x: "")
        seqs_b = Property(isa=(str, LeafList), coerce=lambda x: "")
        twin_a = Property(isa=TwinA)
        twin_b = Property(isa=TwinB)
        twins = Property(isa=TwinList)
        num = Property(isa=int)
        text = Property(isa=Text)
        any = Property()
        leaf = Property(isa=Leaf)
        leaves = Property(isa=LeafList)
        texts = ListProperty(of=str)
        map = Property(isa=LeafMap)
        u = Property(isa=(Leaf, str), coerce=lambda x: "u")
        both = Property(isa=(Leaf, Other), coerce=lambda x: Leaf())
        mixed = Property(isa=(LeafList, int), coerce=lambda x: 1)
        colls = Property(isa=(LeafList, LeafMap, TreeList),
                         coerce=lambda x: LeafList())
        tree = Property(isa=Tree)
        fn = Property(isa=SubCallable)
        open = Property(isa=SubOpen)
        opaque = Property(isa=(Opaque, int), coerce=lambda x: 1)
        lazy = Property(isa=Leaf, lazy=True, default=lambda: Leaf(n=1))
        ro = Property(isa=Leaf, traits=["ro"])

    class Plain(Record):
        leaf = Property()

    def props(**kw):
        rv = dict(kw)
        for k, v in kw.items():
            rv[k + "0"] = v
        return rv
    leaf = props(n=(int,), s=(str,))
    leaf["meth"] = ANY
    other = props(n=(Leaf,), o=ANY)
    othersub = dict(other)
    othersub.update(props(extra=(Text,)))
    texts = list_of(str)
    lst = {"append": ANY}
    spec = {
        Leaf: (leaf, None, False),
        Other: (other, None, False),
        OtherSub: (othersub, None, False),
        LeafList: (dict(lst, **props(page=(int,))), (Leaf,), False),
        LeafMap: ({}, (Leaf,), False),
        texts: (lst, (str,), False),
        TreeList: (lst, (Tree,), False),
        Tree: (props(kids=(TreeList,), up=(OtherSub,)), None, False),
        Loose: (props(n=ANY, s=(Leaf,)), None, False),
        TwinA: (props(n=(int,)), None, False),
        TwinB: (props(s=(Leaf,)), None, False),
        TwinList: (lst, (TwinB,), False),
        Top: (props(
            loose_a=(Leaf, Loose), loose_b=(Loose, Leaf),
            seqs_a=(LeafList, str), seqs_b=(str, LeafList), twin_a=(TwinA,),
            twin_b=(TwinB,), twins=(TwinList,), num=(int,), text=(Text,), any=ANY, leaf=(Leaf,),
            leaves=(LeafList,), texts=(texts,), map=(LeafMap,),
            u=(Leaf, str), both=(Leaf, Other), mixed=(LeafList, int),
            colls=(LeafList, LeafMap, TreeList), tree=(Tree,),
            fn=(SubCallable,), open=(SubOpen,), opaque=(Opaque, int),
            lazy=(Leaf,), ro=(Leaf,)), None, False),
        int: ({"bit_length": ANY}, None, False),
        str: ({"upper": ANY}, ANY, False),
        Text: ({"upper": ANY}, ANY, False),
        SubCallable: ({"marker": ANY}, None, True),
        SubOpen: (None, None, False),        # any attribute
        Opaque: ({"visible": ANY}, None, False),
    }
    return Top, spec


NAMES = ("n", "s", "s0", "n0", "o", "meth", "page", "kids", "up", "extra",
         "upper", "bit_length", "append", "marker", "visible", "zzz")
STEPS = [("attr", n) for n in NAMES] + [
    ("item", 0), ("item", "k"), ("item", -1), ("slice", None),
    ("call", None)]


def flatten(types):
    out = set()
    for t in types:
        if t == ANY:
            return ANY
        out.update(t)
    return frozenset(out)


def model_step(spec, types, step):
    """-> new set of types, or the refusal"""
    if types == ANY:
        return ANY
    kind, arg = step
    if kind == "attr":
        found = []
        for t in types:
            attrs = spec[t][0]
            if attrs is None:
                found.append(ANY)
            elif arg in attrs:
                found.append(attrs[arg])
        if not found:
            return AttributeError
        return flatten(found)
    if kind in ("item", "slice"):
        found = [spec[t][1] for t in types if spec[t][1] is not None]
        if not found:
            return TypeError
        if kind == "slice":
            return types
        return flatten(found)
    if any(spec[t][2] for t in types):
        return ANY
    return TypeError


def real_step(ph, step):
    kind, arg = step
    if kind == "attr":
        return getattr(ph, arg)
    if kind == "item":
        return ph[arg]
    if kind == "slice":
        return ph[0:1]
    return ph()


def check_placeholder(ph, path):
    expect(not ph, "%r: placeholder is true", path)
    for what, f in (
        ("attribute", lambda: setattr(ph, "n", 1)),
        ("attribute", lambda: setattr(ph, "zzz", 1)),
        ("item", lambda: ph.__setitem__(0, 1)),
    ):
        r = attempt(f)
        expect(r[0] == "exc" and isinstance(r[1], TypeError),
               "%r: %s assignment to a placeholder gave %r", path, what, r)


def navigate(spec, Top, rec, start, path):
    types = spec[Top][0][start]
    ph = getattr(rec, start)
    types = ANY if types == ANY else frozenset(types)
    check_placeholder(ph, (start,))
    for i, step in enumerate(path):
        want = model_step(spec, types, step)
        r = attempt(real_step, ph, step)
        where = (start,) + path[:i + 1]
        if isinstance(want, type):
            expect(r[0] == "exc", "%r gave %r, expected a refusal", where,
                   r[1])
            expect(isinstance(r[1], want), "%r was refused with %r, expected "
                   "a %s", where, r[1], want.__name__)
            return None
        expect(r[0] == "ok", "%r was refused with %r", where, r[1])
        ph = r[1]
        expect(type(ph).__name__ == "EmptyVal", "%r gave %r, not a "
               "placeholder", where, ph)
        check_placeholder(ph, where)
        types = want
    return types


def starts(Top):
    return sorted(n + "0" for n in Top.properties if n != "lazy")


def tasks_C06(tier):
    tasks = []

    def walk(first):
        def run(ctx):
            depth = 4 if ctx.thorough else 3
            Top, spec = universe()
            seen = set()

            def go(path):
                rec = Top()
                types = ctx.run((first, path), navigate, spec, Top, rec,
                                first, path)
                ctx.step(len(path))
                if vars(rec):
                    ctx.run((first, path, "unchanged"), lambda: fail(
                        "navigation changed the record to %r", rec))
                if types is None and path:
                    return
                seen.add((path and path[-1][0], types))
                if len(path) >= depth:
                    return
                if types == ANY and len(path) > 1:
                    # any answers everything with itself: one more step
                    for step in STEPS:
                        ctx.run((first, path + (step,)), navigate, spec, Top,
                                rec, first, path + (step,))
                    return
                for step in STEPS:
                    go(path + (step,))
            go(())
            ctx.state(len(seen))
            ctx.bound(depth=depth, steps=len(STEPS))
        return run

    Top, _ = universe()
    for s in starts(Top):
        tasks.append(("walk/%s" % s, walk(s)))

    def history(s1):
        """any earlier navigation, on fresh types, does not influence later
        ones"""
        def run(ctx):
            Top, spec = universe()
            d1 = 2
            paths1 = [p for n in range(d1 + 1)
                      for p in itertools.product(STEPS, repeat=n)]
            if not ctx.thorough:
                paths1 = [p for p in paths1 if len(p) < 2 or p[0] in (
                    ("attr", "n"), ("item", 0), ("attr", "kids"),
                    ("attr", "up"), ("slice", None))]

            def case(p1):
                Top, spec = universe()
                rec = Top()
                navigate(spec, Top, rec, s1, p1)
                for s2 in starts(Top):
                    for p2 in [()] + [(a,) for a in STEPS]:
                        navigate(spec, Top, Top(), s2, p2)
                        ctx.step()
                expect(not vars(rec), "record changed: %r", rec)
            for p1 in paths1:
                ctx.state()
                ctx.run((s1, p1), case, p1)
        return run
    for s in starts(Top):
        tasks.append(("history/%s" % s, history(s)))
    tasks.append(("set-values", aux_values))
    tasks.append(("names", accessor_names))
    return tasks


def accessor_names(ctx):
    """the accessor never takes the place of what is declared by its name"""
    METHOD, CONST = (lambda self: "mine"), "const"
    others = {
        "typed": lambda: Property(isa=str),
        "any": lambda: Property(),
        "ro": lambda: ROProperty(isa=str),
        "lazy": lambda: LazyProperty(isa=str, default=lambda: "lz"),
        "default": lambda: Property(isa=str, default="df"),
        "v1": lambda: V1Property(isa=str, v1_none="", required=False),
        "list": lambda: ListProperty(of=str),
        "method": lambda: METHOD,
        "const": lambda: CONST,
        "property": lambda: property(lambda self: "prop"),
        "none": None,
    }
    serial = itertools.count()

    def make(base, **attrs):
        return type(Record)("Acc%d" % next(serial), (base,), dict(
            attrs, __module__=__name__))

    def case(base, owner, empty_attr, other, layout):
        kw = {} if empty_attr == "-" else dict(empty_attr=empty_attr)
        acc = (owner + "0" if owner[-1] not in "0123456789" else None) \
            if empty_attr == "-" else empty_attr
        name = acc or owner + "x"
        Leaf = make(Record, n=Property())
        a = Property(isa=Leaf, **kw)
        if other == "none":
            T = make(base, **{owner: a})
        elif layout == "first":
            T = make(base, **{name: others[other](), owner: a})
        elif layout == "last":
            T = make(base, **{owner: a, name: others[other]()})
        elif layout == "below":
            T = make(make(base, **{owner: a}), **{name: others[other]()})
        elif layout == "above":
            T = make(make(base, **{name: others[other]()}), **{owner: a})
        else:
            T = make(make(make(base, **{owner: Property()}),
                          **{name: others[other]()}), **{owner: a})
        leaf = Leaf(n=1)
        for o, is_set in ((T(), False), (T(**{owner: leaf}), True)):
            r = attempt(getattr, o, owner)
            expect(r == ("ok", leaf) and r[1] is leaf if is_set else
                   r[0] == "exc" and isinstance(r[1], AttributeError),
                   "%s: %r", owner, r)
            r = attempt(setattr, o, owner, "bad")
            expect(r[0] == "exc", "%s is not type-safe", owner)
            r = attempt(getattr, o, name)
            want = {"lazy": "lz", "default": "df", "v1": "",
                    "const": CONST, "property": "prop"}.get(other)
            if other == "none":
                if acc is None:
                    expect(r[0] == "exc", "there is an accessor: %r", r)
                elif is_set:
                    expect(r[0] == "ok" and r[1] is leaf, "%s: %r", name, r)
                else:
                    expect(r[0] == "ok" and not r[1], "%s: %r", name, r)
                    check_placeholder(r[1].n, (name, "n"))
                    expect(attempt(getattr, r[1], "zz")[0] == "exc",
                           "%s is not of the declared type", name)
                continue
            elif other == "method":
                expect(r[0] == "ok" and r[1]() == "mine", "%r", r)
                continue
            elif want is not None:
                expect(r == ("ok", want), "%s is %r", name, r)
            else:
                expect(r[0] == "exc" and isinstance(r[1], AttributeError),
                       "%s, which is not set, is %r", name, r)
            if other in ("const", "property"):
                continue
            bad = object()
            r = attempt(setattr, o, name, 5 if other == "list" else bad)
            if other == "any":
                expect(getattr(o, name) is bad, "%s: %r", name, r)
            elif other == "ro":
                expect(r[0] == "exc", "%s was assigned", name)
            elif other != "lazy":
                now = attempt(getattr, o, name)
                expect(r[0] == "exc" if other == "list" else
                       r[0] == "ok" and isinstance(now[1], str),
                       "%s = %r: %r, %r", name, bad, r, now)
                if other != "list":
                    setattr(o, name, "s")
                    expect(getattr(o, name) == "s", "%s", name)
            elif other == "lazy":
                expect(attempt(getattr, o, name)[0] == "ok", "%s", name)
            expect(attempt(getattr, o, owner)[0] == (
                "ok" if is_set else "exc"), "%s changed", owner)
        ctx.step(2)
    for base in (Record, JsonRecord, ListCollection):
        if base is ListCollection:
            base = make(ListCollection, itemtype=str)
        for owner, ea in (("a", "-"), ("long_name", "-"), ("a", "nil"),
                          ("a", None), ("a1", "-"), ("a1", "a10"),
                          ("_b", "-"), ("a", "a1")):
            for other in others:
                for layout in ("first", "last", "below", "above", "between"):
                    if layout in ("above", "between") and other in (
                            "method", "const", "property"):
                        continue    # what is inherited is not declared here
                    ctx.state()
                    ctx.run((base.__name__ if base in (Record, JsonRecord)
                             else "list", owner, ea, other, layout), case,
                            base, owner, ea, other, layout)


def aux_values(ctx):
    """The accessor returns the very value of a set slot, false or not, and
    never changes the record; through partially set trees too."""
    Top, spec = universe()
    Leaf = Top.properties["leaf"].valuetype
    Tree = Top.properties["tree"].valuetype
    values = {
        "num": (0, 1), "text": (Text(""), Text("a")),
        "any": (None, 0, "", [], ()), "leaf": (Leaf(), Leaf(n=0, s="")),
        "leaves": ([], [Leaf()], [Leaf(n=3)]), "texts": ([], ["a"]),
        "map": ({}, {"k": Leaf(n=2)}), "u": ("", "b", Leaf(n=1)),
        "mixed": (0, 5), "ro": (Leaf(), Leaf(n=1)),
        "tree": (Tree(), Tree(kids=[]), Tree(kids=[Tree(kids=[Tree()])])),
        "lazy": (Leaf(), Leaf(s="z")),
    }

    def walk(rec, name, value):
        expect(getattr(rec, name + "0") is getattr(rec, name),
               "%s0 is not the value of %s", name, name)

    def deep(t, spec_types, depth):
        """compare the accessor with the slots on a real tree"""
        if not depth or not isinstance(t, Record):
            return
        before = repr(t)
        for name, prop in type(t).properties.items():
            if not hasattr(type(t), name + "0"):
                continue
            has = name in vars(t)
            if name == "lazy" and not has:
                continue
            v = getattr(t, name + "0")
            if has:
                expect(v is vars(t)[name], "%s0 of %r is %r", name, t, v)
                deep(v, None, depth - 1)
            else:
                check_placeholder(v, (name,))
                expect(repr(t) == before, "navigating %s0 changed %s to %r",
                       name, before, t)
            ctx.step()
        if isinstance(t, ListCollection):
            for x in t:
                deep(x, None, depth - 1)
        expect(repr(t) == before, "navigating changed %s to %r", before, t)

    for name in sorted(values):
        for i, v in enumerate(values[name]):
            def case():
                rec = Top(**{name: v})
                snap = repr(rec)
                walk(rec, name, v)
                walk(rec, name, v)
                for other in sorted(values):
                    if other != name and other != "lazy":
                        check_placeholder(getattr(rec, other + "0"),
                                          (other,))
                        ctx.step()
                expect(repr(rec) == snap, "record changed to %r", rec)
                deep(rec, None, 4)
                if name != "ro":
                    delattr(rec, name)
                    if name != "lazy":
                        check_placeholder(getattr(rec, name + "0"), (name,))
                        expect(not vars(rec), "record changed to %r", rec)
            ctx.run((name, i), case)
            ctx.state()

    # pairs of set slots
    for n1, n2 in itertools.combinations(sorted(values), 2):
        for v1, v2 in itertools.product(values[n1], values[n2]):
            def case():
                rec = Top(**{n1: v1, n2: v2})
                deep(rec, None, 3)
            ctx.run((n1, n2, repr(v1), repr(v2)), case)
            ctx.state()

    def lazy():
        rec = Top()
        v = rec.lazy0
        expect(v == Leaf(n=1) and rec.lazy is v, "lazy accessor gave %r", v)
    ctx.run(("lazy",), lazy)


# -- C07 ---------------------------------------------------------------------

D = datetime.date
PKINDS = {
    # kind: good, good2, (raw, coerced), bad
    "int": (1, 2, ("3", 3), "x"),
    "IntP": (1, 2, ("3", 3), "x"),
    "list": ([1], [2], (("3",), [3]), ["x"]),
    "jlist": ([1], [2], (("3",), [3]), ["x"]),
    "dict": ({"a": 1}, {"a": 2}, ({"a": "3"}, {"a": 3}), {"a": "x"}),
    "jdict": ({"a": 1}, {"a": 2}, ({"a": "3"}, {"a": 3}), {"a": "x"}),
    "date": (D(2020, 1, 2), D(2020, 1, 3), ("2020-01-04", D(2020, 1, 4)),
             "x"),
    "any": (1, 2, None, None),
    "chk": (1, 2, None, None),
}
OPTS = ("lazy", "ro", "v1", "dif", "js", "ext")


def option_kwargs(kind, opts, log, null=None):
    kw = {}
    if kind == "int":
        kw["isa"] = int
    if kind in ("int", "IntP", "chk"):
        kw["check"] = lambda v: v != 7
    if kind in ("list", "dict", "jlist", "jdict"):
        kw["of"] = int
    if "lazy" in opts:
        def dflt():
            log.append(1)
            return PKINDS[kind][0]
        kw["lazy"] = True
        kw["default"] = dflt
    if "ro" in opts:
        kw["traits"] = ["ro"]
    if "v1" in opts:
        kw["v1_none"] = null
    if "dif" in opts:
        kw["compare_as"] = lambda v: "same"
    if "js" in opts:
        kw["json_name"] = "q"
    if "ext" in opts:
        kw["extraneous"] = True
    return kw


PBASE = {"int": Property, "any": Property, "chk": Property, "IntP": PT.IntProperty,
         "list": ListProperty, "jlist": JsonListProperty,
         "dict": DictProperty, "jdict": JsonDictProperty,
         "date": PT.DateProperty}


def declare(kind, opts, log, order=None, cls=None, rename=None, drop=(),
            extra=None):
    kw = option_kwargs(kind, opts, log)
    for d in drop:
        kw.pop(d)
    if extra:
        kw.update(extra)
    if rename:
        kw = {rename.get(k, k): v for k, v in kw.items()}
    if order:
        kw = {k: kw[k] for k in order}
    return (cls or PBASE[kind])(**kw)


def plain(v):
    if isinstance(v, ListCollection):
        return list(v)
    if isinstance(v, DictCollection):
        return dict(v.items())
    return v


def probe(kind, opts, prop, log):
    """Every behaviour the options describe, on a record with the property."""
    good, good2, coer, bad = PKINDS[kind]
    ro, lazy, v1 = "ro" in opts, "lazy" in opts, "v1" in opts

    T = type("T", (JsonRecord,), dict(p=prop, other=Property(isa=int)))
    del log[:]

    def read(o):
        r = attempt(getattr, o, "p")
        if r[0] == "exc":
            expect(isinstance(r[1], AttributeError), "reading gave %r", r[1])
            return UNSET
        return plain(r[1])

    def is_unset(o, what):
        n = len(log)
        if lazy:
            expect(read(o) == good, "%s: lazy slot reads %r", what, read(o))
            expect(len(log) == n + 1, "%s: default evaluated %d times", what,
                   len(log) - n)
            read(o)
            expect(len(log) == n + 1, "%s: default evaluated again", what)
        elif v1:
            expect(read(o) is None, "%s: unset slot reads %r", what, read(o))
        else:
            expect(read(o) == UNSET, "%s: unset slot reads %r", what, read(o))

    expect(T.properties["p"] is prop, "the property is not in the type")
    o = T(other=1)
    expect(not log, "default evaluated at construction")
    is_unset(o, "new")
    # construction
    expect(read(T(p=good)) == good, "constructed with %r: %r", good,
           read(T(p=good)))
    if coer:
        v = read(T(p=coer[0]))
        expect(v == coer[1] and type(v) is type(coer[1]),
               "constructed with %r: %r", coer[0], v)
        r = attempt(T, p=bad)
        expect(r[0] == "exc" and isinstance(r[1], TypeError) and
               isinstance(r[1], exc.NormalizeError),
               "constructed with %r: %r", bad, r)
    if kind in ("int", "IntP", "chk"):
        r = attempt(T, p=7)
        expect(r[0] == "exc" and isinstance(r[1], ValueError),
               "constructed with failing check: %r", r)
    expect(not log[1 if lazy else 0:], "default evaluated needlessly")
    if kind in ("list", "jlist", "dict", "jdict"):
        v = T(p=good).p
        want = ListCollection if "list" in kind else DictCollection
        expect(isinstance(v, want) and type(v).itemtype is int,
               "value is a %s", type(v).__mro__)

    # assignment from both states
    for start in ("unset", "set"):
        values = [(good, good)]
        if coer:
            values.append(coer)
            values.append((bad, TypeError))
        if kind in ("int", "IntP", "chk"):
            values.append((7, ValueError))
        if kind in ("int", "IntP"):
            values.append((None, None if v1 else TypeError))
        if kind == "date":
            values.append((None, None if v1 else TypeError))
        for raw, want in values:
            o = T(p=good2) if start == "set" else T()
            r = attempt(setattr, o, "p", raw)
            what = "assigning %r when %s" % (raw, start)
            if ro:
                expect(r[0] == "exc" and isinstance(r[1], AttributeError) and
                       isinstance(r[1], exc.ReadOnlyAttributeError),
                       "%s: %r", what, r)
            elif isinstance(want, type):
                expect(r[0] == "exc" and isinstance(r[1], want) and
                       isinstance(r[1], exc.NormalizeError), "%s: %r", what,
                       r)
            else:
                expect(r[0] == "ok", "%s: %r", what, r)
                if want is None and v1:
                    is_unset(o, what)
                else:
                    expect(read(o) == want and
                           type(read(o)) is type(want), "%s: reads %r", what,
                           read(o))
                continue
            if start == "set":
                expect(read(o) == good2, "%s: reads %r", what, read(o))
            else:
                is_unset(o, what)
    # deletion
    o = T(p=good2)
    r = attempt(delattr, o, "p")
    if ro:
        expect(r[0] == "exc" and isinstance(r[1], AttributeError),
               "deleting: %r", r)
        expect(read(o) == good2, "deleting changed the value")
    else:
        expect(r[0] == "ok", "deleting: %r", r)
        is_unset(o, "deleted")
    # json
    key = "q" if "js" in opts else "p"
    jgood = good.isoformat() if kind == "date" else good
    o = T(p=good)
    expect(to_json(o) == {key: jgood}, "JSON data is %r", to_json(o))
    expect(read(from_json(T, {key: jgood})) == good, "from JSON: %r",
           from_json(T, {key: jgood}))
    o = from_json(T, {"zz": jgood})
    expect("p" not in vars(o), "from JSON: %r", o)
    jd = T(p=good).json_data()
    expect(jd == ({} if "ext" in opts else {key: jgood}), "json_data: %r", jd)
    # comparison
    a, b = T(p=good), T(p=good2)
    expect((a == b) is ("ext" in opts), "== gives %r", a == b)
    d = len(list(a.diff_iter(b)))
    expect(bool(d) is not ("ext" in opts or "dif" in opts),
           "%d differences", d)
    d = len(list(a.diff_iter(b, compare_filter=None)))
    # accessor
    if not v1:
        o = T(p=good)
        expect(plain(o.p0) == good, "accessor of a set slot: %r", o.p0)
        if not lazy:
            expect(not T().p0, "accessor of an unset slot: %r", T().p0)
    return True


def all_opts():
    for s in subsets(OPTS):
        yield s


def run_probe(kind, opts, **kw):
    log = []
    return probe(kind, opts, declare(kind, opts, log, **kw), log)


def tasks_C07(tier):
    tasks = []

    def alone(kind):
        """each combination declared first in a fresh process, and all orders
        of writing the options"""
        def run(ctx):
            for opts in all_opts():
                ctx.run((kind, opts), forked, run_probe, kind, opts)
                ctx.state()
                ctx.step()
                names = list(option_kwargs(kind, opts, []))
                if len(names) > 4 and not ctx.thorough:
                    perms = [names[::-1]] + [
                        names[i:] + names[:i] for i in range(1, len(names))]
                elif len(names) > 5:
                    perms = itertools.chain(
                        [names[i:] + names[:i] for i in range(len(names))],
                        [names[::-1][i:] + names[::-1][:i]
                         for i in range(len(names))])
                else:
                    perms = itertools.permutations(names)
                for order in perms:
                    order = tuple(order)
                    ctx.run((kind, opts, "order", order), forked, run_order,
                            kind, opts, order)
                    ctx.step()
        return run

    def run_order(kind, opts, order):
        return run_probe(kind, opts, order=list(order))

    def after(kind, kinds1, opts1, opts2):
        """each combination declared after each other one"""
        def run(ctx):
            def case(k1, o1, o2):
                declare(k1, o1, [])
                return run_probe(kind, o2)
            for k1 in kinds1:
                for o1 in opts1:
                    for o2 in opts2:
                        ctx.run((k1, o1, "then", kind, o2), forked, case, k1,
                                o1, o2)
                        ctx.step(2)
                        ctx.state()
        return run

    def everything(kind, reverse):
        """all combinations of all kinds declared in one process, in order of
        size or the reverse, then all probed"""
        def run(ctx):
            combos = sorted(all_opts(), key=len, reverse=reverse)

            def case():
                made = []
                for k in sorted(PKINDS, reverse=reverse):
                    for o in combos:
                        log = []
                        made.append((k, o, declare(k, o, log), log))
                for k, o, p, log in made:
                    if k == kind:
                        probe(k, o, p, log)
                return len(made)
            ctx.run((kind, "all", reverse), forked, case)
            ctx.step(len(combos))
            ctx.state(len(combos))
        return run

    noext = [o for o in all_opts() if "ext" not in o]
    core = [o for o in noext if len(o) <= 2] + [("lazy", "ro", "v1", "js"),
                                               ("lazy", "ro", "v1")]
    for kind in sorted(PKINDS):
        tasks.append(("alone/%s" % kind, alone(kind)))
        for rev in (False, True):
            tasks.append(("everything/%s/%s" % (kind, rev),
                          everything(kind, rev)))
        if tier == "thorough":
            for k1 in sorted(PKINDS):
                tasks.append(("after/%s/%s" % (k1, kind),
                              after(kind, [k1], noext, noext)))
        elif kind in ("int", "list", "date", "any"):
            tasks.append(("after/%s" % kind,
                          after(kind, ["int", "any", "jlist", "date"], core,
                                core)))
    tasks.append(("equivalent-forms", equivalent_forms))
    tasks.append(("derived-property-types", derived_property_types))
    tasks.append(("many-orders", many_orders))
    for traits in BASIC_TRAITS:
        tasks.append(("basic-options/%s" % "+".join(traits),
                      basic_options(traits)))
    return tasks


BASIC = ("isa", "coerce", "check", "required", "default", "empty_attr",
         "doc", "json_name", "extraneous", "compare_as")
BASIC_TRAITS = ((), ("ro",), ("safe",), ("unsafe",), ("v1",), ("ro", "v1"),
                ("json",), ("lazy",))
BASIC_VALUES = (1, 7, "5", "x", None, 0, "")
REFUSED = object()


def basic_kwargs(opts, traits):
    kw = {}
    if "isa" in opts:
        kw["isa"] = int
    if "coerce" in opts:
        kw["coerce"] = lambda v: len(v) + 1
    if "check" in opts:
        kw["check"] = lambda v: v != 7
    if "required" in opts:
        kw["required"] = True
    if "default" in opts:
        kw["default"] = lambda: 4
    if "empty_attr" in opts:
        kw["empty_attr"] = "maybe"
    if "doc" in opts:
        kw["doc"] = "documented"
    if "json_name" in opts:
        kw["json_name"] = "q"
    if "extraneous" in opts:
        kw["extraneous"] = True
    if "compare_as" in opts:
        kw["compare_as"] = lambda v: "same"
    if "v1" in traits:
        kw["v1_none"] = None
    if set(traits) - {"v1"}:
        kw["traits"] = [t for t in traits if t != "v1"]
    return kw


def basic_accept(opts, v):
    """what a checked slot holds after being given v"""
    if "isa" in opts:
        if not isinstance(v, int):
            try:
                v = len(v) + 1 if "coerce" in opts else int(v)
            except Exception:
                return REFUSED
    elif v is None and "required" in opts:
        return REFUSED
    if "check" in opts and v == 7:
        return REFUSED
    return v


def basic_probe(opts, traits, order):
    kw = basic_kwargs(opts, traits)
    prop = Property(**{k: kw[k] for k in order})
    return basic_check(prop, opts, traits)


def basic_check(prop, opts, traits):
    ro, v1, lazy = "ro" in traits, "v1" in traits, "lazy" in traits
    required = "required" in opts
    checked = "unsafe" not in traits and (
        "isa" in opts or "check" in opts or required)
    T = type("T", (JsonRecord,), dict(p=prop, k=Property(isa=int)))
    kv = {} if not required else {"p": 1}

    def read(o):
        r = attempt(getattr, o, "p")
        if r[0] == "exc":
            expect(isinstance(r[1], AttributeError), "reading gave %r", r[1])
            return UNSET
        return r[1]
    unset = 4 if lazy and "default" in opts else None if v1 else UNSET

    # construction
    r = attempt(T, k=1)
    if lazy:
        expect(r[0] == "ok", "new: %r", r)
        if "default" in opts:
            expect("p" not in vars(r[1]) and read(r[1]) == 4, "lazy: %r",
                   read(r[1]))
    elif "default" in opts:
        expect(r[0] == "ok" and read(r[1]) == 4, "default: %r", r)
    elif required:
        expect(r[0] == "exc" and isinstance(r[1], ValueError), "new: %r", r)
    else:
        expect(r[0] == "ok" and read(r[1]) == unset and
               "p" not in vars(r[1]), "new: %r", r)
    for v in BASIC_VALUES:
        want = basic_accept(opts, v)
        for how, f in (("constructed with", lambda: T(p=v)),
                       ("read from", lambda: from_json(
                           T, {"q" if "json_name" in opts else "p": v}))):
            r = attempt(f)
            if want is REFUSED:
                expect(r[0] == "exc", "%s %r: %r", how, v, r)
            else:
                expect(r[0] == "ok" and type(read(r[1])) is type(want) and
                       read(r[1]) == want, "%s %r: %r", how, v, r)
        # assignment
        for start in ("set", "unset"):
            if start == "unset" and (required or "default" in opts):
                continue
            o = T(p=2) if start == "set" else T()
            before = read(o) if not lazy else 2
            r = attempt(setattr, o, "p", v)
            what = "assigning %r (%s)" % (v, start)
            if ro:
                expect(r[0] == "exc" and
                       isinstance(r[1], exc.ReadOnlyAttributeError),
                       "%s: %r", what, r)
                expect(read(o) == before, "%s: reads %r", what, read(o))
            elif not checked and not (v1 and "unsafe" not in traits):
                expect(r[0] == "ok" and read(o) is v, "%s: %r", what, r)
            elif want is REFUSED and v is None and v1 and not required and \
                    "isa" in opts:
                expect(r[0] == "ok" and "p" not in vars(o), "%s: %r", what,
                       r)
            elif want is REFUSED:
                expect(r[0] == "exc" and
                       isinstance(r[1], exc.NormalizeError), "%s: %r", what,
                       r)
                expect(read(o) == before or lazy, "%s: reads %r", what,
                       read(o))
            else:
                expect(r[0] == "ok" and read(o) == want and
                       type(read(o)) is type(want), "%s: %r, reads %r", what,
                       r, read(o))
    # deletion
    o = T(p=2)
    r = attempt(delattr, o, "p")
    if ro or (checked and required):
        expect(r[0] == "exc" and isinstance(r[1], exc.NormalizeError),
               "deleting: %r", r)
        expect(read(o) == 2, "deleting changed it")
    else:
        expect(r[0] == "ok" and "p" not in vars(o), "deleting: %r", r)
    # the placeholder accessor
    name = "maybe" if "empty_attr" in opts else None if v1 else "p0"
    for n in ("p0", "maybe"):
        expect(hasattr(T, n) == (n == name), "accessor %s: %r", n,
               hasattr(T, n))
    if name:
        expect(getattr(T(p=2), name) == 2, "accessor when set")
        if not required and "default" not in opts and not lazy:
            ph = getattr(T(), name)
            if not v1:
                expect(not ph and ph is not None, "accessor: %r", ph)
                r = attempt(getattr, ph, "nothing_like_it")
                expect((r[0] == "exc") == ("isa" in opts),
                       "accessor of the wrong type: %r", r)
    expect(prop.__doc__ == ("documented" if "doc" in opts else None),
           "doc %r", prop.__doc__)
    # JSON, comparison
    key = "q" if "json_name" in opts else "p"
    expect(to_json(T(p=2)) == {key: 2}, "JSON %r", to_json(T(p=2)))
    jd = T(p=2).json_data()
    expect(jd == ({} if "extraneous" in opts else {key: 2}), "JSON %r", jd)
    a, b = T(p=2), T(p=3)
    expect((a == b) is ("extraneous" in opts), "== gives %r", a == b)
    n = len(list(a.diff_iter(b)))
    expect(bool(n) is not ("extraneous" in opts or "compare_as" in opts),
           "%d differences", n)
    return True


def basic_options(traits):
    """every set of the elementary options, with the traits named"""
    def run(ctx):
        for opts in subsets(BASIC):
            if "coerce" in opts and "isa" not in opts:
                continue
            if "lazy" in traits and "default" not in opts:
                continue
            if not ctx.thorough and len(opts) > 4 and \
                    len(opts) < len(BASIC) - 1:
                continue
            names = list(basic_kwargs(opts, traits))
            orders = [tuple(names)]
            if len(names) > 1:
                orders.append(tuple(reversed(names)))
            if ctx.thorough:
                orders += [tuple(names[i:] + names[:i])
                           for i in range(1, len(names))]
            for order in orders:
                ctx.run((traits, opts, order), basic_probe, opts, traits,
                        order)
                ctx.step(len(BASIC_VALUES) * 4)
            ctx.state()
    return run


def many_orders(ctx):
    """sequences of three declarations in all orders; the last is probed"""
    pool = [("any", ("ro",)), ("any", ("v1", "ro")), ("int", ("lazy", "js")),
            ("int", ("v1",)), ("jlist", ("lazy",)), ("date", ("ro", "dif")),
            ("list", ("v1", "lazy", "ro")), ("int", ("lazy", "ro", "v1"))]
    targets = [("int", ("lazy", "ro", "v1", "js", "dif")),
               ("list", ("lazy", "v1", "dif")),
               ("date", ("lazy", "ro", "v1")), ("any", ("ro", "v1", "js")),
               ("jdict", ("ro", "dif", "lazy"))]

    def case(seq, target):
        for k, o in seq:
            declare(k, o, [])
        return run_probe(*target)
    for n in (2, 3):
        for seq in itertools.permutations(range(len(pool)), n):
            if n == 3 and not ctx.thorough and seq[0] > 1:
                continue
            for t in targets:
                ctx.run((seq, t), forked, case, [pool[i] for i in seq], t)
                ctx.step(n + 1)
                ctx.state()


def equivalent_forms(ctx):
    """other ways of asking for the same thing"""
    forms = [
        ("int", (), dict(cls=SafeProperty)),
        ("int", ("ro",), dict(cls=ROProperty, drop=["traits"])),
        ("any", ("ro",), dict(cls=ROProperty, drop=["traits"])),
        ("any", ("lazy",), dict(cls=LazyProperty, drop=["lazy"])),
        ("any", ("lazy",), dict(cls=LazyProperty)),
        ("int", ("lazy",), dict(cls=LazyProperty, drop=["lazy"])),
        ("int", ("lazy",), dict(cls=LazySafeProperty, drop=["lazy"])),
        ("int", ("lazy", "ro"), dict(cls=LazyProperty, drop=["lazy"])),
        ("int", ("lazy", "ro"), dict(cls=ROProperty, drop=["traits"])),
        ("int", ("v1",), dict(cls=V1Property)),
        ("int", ("v1",), dict(cls=V1Property, drop=["v1_none"])),
        ("any", ("v1",), dict(cls=V1Property, drop=["v1_none"])),
        ("int", ("v1",), dict(drop=["v1_none"], extra={"traits": ["v1"]})),
        ("int", ("js",), dict(cls=JsonProperty)),
        ("int", ("js",), dict(cls=SafeJsonProperty)),
        ("any", ("js",), dict(cls=JsonProperty)),
        ("int", ("js", "ro"), dict(cls=JsonProperty)),
        ("int", ("js", "lazy"), dict(cls=JsonProperty)),
        ("int", ("js", "lazy"), dict(cls=LazyProperty)),
        ("int", ("js", "ro", "lazy"), dict(cls=ROProperty)),
        ("int", ("js", "dif"), dict(cls=JsonProperty)),
        ("list", (), dict(rename={"of": "list_of"})),
        ("list", (), dict(cls=Property, rename={"of": "list_of"})),
        ("list", ("ro",), dict(cls=Property, rename={"of": "list_of"})),
        ("list", ("lazy",), dict(cls=Property, rename={"of": "list_of"})),
        ("list", ("v1",), dict(cls=Property, rename={"of": "list_of"})),
        ("list", ("lazy",), dict(cls=LazyProperty,
                                 rename={"of": "list_of"})),
        ("list", ("ro",), dict(cls=ROProperty, rename={"of": "list_of"})),
        ("list", ("js",), dict(cls=JsonListProperty)),
        ("list", ("js",), dict(cls=JsonProperty, rename={"of": "list_of"})),
        ("list", (), dict(cls=Property, rename={"of": "isa"},
                          extra={"of": list_of(int)})),
        ("dict", (), dict(rename={"of": "dict_of"})),
        ("dict", (), dict(cls=Property, rename={"of": "dict_of"})),
        ("dict", ("ro", "js"), dict(cls=Property,
                                    rename={"of": "dict_of"})),
        ("dict", ("lazy", "v1"), dict(cls=Property,
                                      rename={"of": "dict_of"})),
        ("IntP", (), dict(cls=Property, extra={"traits": ["int"]})),
        ("date", (), dict(cls=Property, extra={"traits": ["date"]})),
        ("date", ("lazy",), dict(cls=LazyProperty,
                                 extra={"traits": ["date"]})),
        ("int", ("ext",), dict(cls=SafeProperty)),
    ]
    first = [None, ("int", ("ro",)), ("any", ("lazy", "js")),
             ("list", ("lazy", "v1")), ("date", ("ro",))]

    def case(form, before):
        if before:
            declare(before[0], before[1], [])
        kind, opts, kw = form
        return run_probe(kind, opts, **kw)
    for i, form in enumerate(forms):
        for before in first:
            ctx.run((i, form[0], form[1], repr(form[2]), before), forked,
                    case, form, before)
            ctx.step()
        ctx.state()


def derived_property_types(ctx):
    """make_property_type defaults behave like writing the options"""
    def case(kind, base_opts, use_opts, twice):
        log = []
        kw = option_kwargs(kind, base_opts, log)
        traits = kw.pop("traits", None)
        base = PBASE[kind]
        P = make_property_type("P", base_type=base, **kw)
        if twice:
            P = make_property_type("P2", base_type=P)
        kw2 = option_kwargs(kind, use_opts, log)
        for k in option_kwargs(kind, (), []):
            kw2.pop(k)
        if traits:
            kw2.setdefault("traits", traits)
        opts = tuple(o for o in OPTS if o in base_opts or o in use_opts)
        probe(kind, opts, P(**kw2), log)
        # an unrelated declaration is not affected
        return run_probe(kind, use_opts)

    def override():
        P = make_property_type("PO", isa=int, default=lambda: 5)

        class T(Record):
            a = P()
            b = P(isa=str, default=lambda: "x")
            c = P(default=lambda: 6)
            d = P(check=lambda v: v < 10)
        t = T()
        expect((t.a, t.b, t.c, t.d) == (5, "x", 6, 5), "%r", t)
        expect(attempt(T, d=10)[0] == "exc" and T(c=10).c == 10, "checks mix")
        t.b = 5
        expect(t.b == "5", "%r", t)
        return True
    for kind in sorted(PKINDS):
        for base_opts in subsets(("lazy", "v1", "dif", "js"), 2):
            for use_opts in subsets(OPTS, 2 if ctx.thorough else 1):
                for twice in (False, True):
                    ctx.run((kind, base_opts, use_opts, twice), forked, case,
                            kind, base_opts, use_opts, twice)
                    ctx.step()
                ctx.state()
    ctx.run(("override",), forked, override)


# -- C08 ---------------------------------------------------------------------

def hvariants():
    """property variants: (factory, model)"""
    return {
        "any": dict(make=lambda: Property()),
        "int": dict(make=lambda: Property(isa=int), isa=int),
        "str": dict(make=lambda: Property(isa=str), isa=str),
        "req": dict(make=lambda: Property(isa=int, required=True), isa=int,
                    required=True),
        "def": dict(make=lambda: Property(default=lambda: [8]), default=[8]),
        "ro": dict(make=lambda: Property(isa=int, traits=["ro"]), isa=int,
                   ro=True),
        "lazy": dict(make=lambda: Property(isa=int, lazy=True,
                                           default=lambda: 9),
                     isa=int, lazy=9),
        "json": dict(make=lambda: Property(isa=int, json_name="jn"), isa=int,
                     json="jn"),
        "ext": dict(make=lambda: Property(isa=int, extraneous=True), isa=int,
                    ext=True),
        "list": dict(make=lambda: ListProperty(of=int), list=True),
        "v1": dict(make=lambda: Property(isa=int, v1_none=None), isa=int,
                   v1=True),
    }


def probe_type(T, want, json, ctx=None):
    """T behaves exactly as the model {name: variant model} says"""
    names = set(T.properties) - {"unknown_json_keys"}
    expect(names == set(want), "%s reports properties %r, expected %r",
           T.__name__, sorted(names), sorted(want))
    for n, prop in T.properties.items():
        if n in want:
            expect(prop.name == n, "property %s is named %s", n, prop.name)
    good = {n: [3] if m.get("list") else "t" if m.get("isa") is str else 3
            for n, m in want.items()}
    required = {n: 1 for n, m in want.items() if m.get("required")}
    r = attempt(T)
    expect((r[0] == "exc") == bool(required), "constructing %s without "
           "arguments: %r", T.__name__, r)
    expect(attempt(T, nope=1)[0] == "exc", "unknown name accepted")
    base = T(**required)
    full = T(**good)
    for n, m in want.items():
        got = attempt(getattr, base, n)
        if n in required:
            expect(got == ("ok", 1), "%s is %r", n, got)
        elif "default" in m:
            expect(got == ("ok", m["default"]), "%s is %r", n, got)
        elif "lazy" in m:
            expect(n not in vars(base) or got[1] == m["lazy"], "early lazy")
            expect(got == ("ok", m["lazy"]), "%s is %r", n, got)
        elif m.get("v1"):
            expect(got == ("ok", None), "%s is %r", n, got)
        else:
            expect(got[0] == "exc" and isinstance(got[1], AttributeError),
                   "%s is %r", n, got)
        # assignment
        o = T(**good)
        for raw in ("5", "x", 4, None, [1]):
            cur = attempt(getattr, o, n)
            r = attempt(setattr, o, n, raw)
            if m.get("ro"):
                expect(r[0] == "exc" and isinstance(r[1], AttributeError),
                       "%s is not read-only: %r", n, r)
                expect(getattr(o, n) == 3, "%s changed", n)
            elif m.get("list"):
                ok = raw is None or raw == [1]
                expect((r[0] == "ok") == ok, "%s = %r: %r", n, raw, r)
                if ok:
                    expect(list(getattr(o, n)) == (raw or []), "%r", o)
            elif m.get("isa") is int:
                if raw in ("5", 4):
                    expect(r[0] == "ok" and getattr(o, n) == int(raw),
                           "%s = %r: %r", n, raw, r)
                elif raw is None and m.get("v1"):
                    expect(r[0] == "ok" and getattr(o, n) is None, "%r", r)
                else:
                    expect(r[0] == "exc" and isinstance(r[1], TypeError),
                           "%s = %r: %r", n, raw, r)
                    now = attempt(getattr, o, n)
                    expect(now == cur, "%s was %r, is %r", n, cur, now)
            elif m.get("isa") is str:
                expect(r[0] == "ok" and getattr(o, n) == str(raw), "%r", r)
            else:
                expect(r[0] == "ok" and getattr(o, n) is raw, "%r", r)
        # the placeholder accessor is the one of this property
        if not m.get("v1"):
            expect(getattr(full, n + "0") == getattr(full, n),
                   "accessor %s0: %r", n, getattr(full, n + "0"))
            if not (n in required or "default" in m or "lazy" in m):
                ph = getattr(base, n + "0")
                r = attempt(getattr, ph, "no_such_attribute")
                expect(not ph and (r[0] == "exc") == bool(
                    m.get("isa") or m.get("list")), "placeholder %s0 is %r: "
                    "%r", n, ph, r)
        r = attempt(delattr, T(**good), n)
        expect((r[0] == "ok") == (not m.get("required") and not m.get("ro")),
               "deleting %s: %r", n, r)
        # equality
        other = dict(good)
        other[n] = [4] if m.get("list") else "u" if m.get("isa") is str else 4
        expect((T(**other) == full) == bool(m.get("ext")),
               "records differing in %s: == is %r", n, T(**other) == full)
        # identity, comparison, visits
        two = T(**other)
        expect((two.__pk__ == full.__pk__) == bool(m.get("ext")),
               "records differing in %s: identities %r, %r", n, full.__pk__,
               two.__pk__)
        heads = {d.base.selectors[0] for d in full.diff(two)}
        expect(heads == (set() if m.get("ext") else {n}),
               "records differing in %s: compare as %r", n,
               list(full.diff(two)))
        heads = {d.base.selectors[0] for d in full.diff(
            two, extraneous=True)}
        expect(heads == {n}, "comparing extraneous ones, too: %r", heads)
        seen = VisitorPattern.visit(two, extraneous=True)
        expect(seen == other, "visits as %r, not %r", seen, other)
        seen = VisitorPattern.visit(two)
        kept = {k: v for k, v in other.items() if not want[k].get("ext")}
        expect(seen == kept, "visits as %r, not %r", seen, kept)
        expect(VisitorPattern.cast(T, seen) == two, "visited as %r, casts "
               "back as %r", seen, VisitorPattern.cast(T, seen))
    expect(hash(full) == hash(T(**good)) and full.__pk__ ==
           T(**good).__pk__, "identity of a copy")
    types = VisitorPattern.reflect(T, extraneous=True).get("properties", {})
    expect(set(types) - {"unknown_json_keys"} == set(want), "reflects as %r",
           types)
    twin = copy.deepcopy(full)
    expect(twin == full and type(twin) is T and vars(twin) == vars(full),
           "deep copy %r", twin)
    expect(full == T(**good) and not (full != T(**good)), "not equal to copy")
    text = repr(full)
    expect(eval(text, {T.__name__: T, "intList": list_of(int)}) == full and
           all("%s=" % n in text for n in want), "printed as %s", text)
    jd = to_json(full)
    jwant = {m.get("json", n): good[n] for n, m in want.items()}
    expect(jd == jwant, "%s: JSON data %r, expected %r", T.__name__, jd,
           jwant)
    back = from_json(T, jwant)
    expect(back == full and type(back) is T, "from JSON: %r", back)
    if json:
        jd = full.json_data()
        jwant = {m.get("json", n): good[n] for n, m in want.items()
                 if not m.get("ext")}
        expect(jd == jwant, "json_data %r, expected %r", jd, jwant)


def tasks_C08(tier):
    tasks = []
    variants = hvariants()
    names = sorted(variants)

    def two_levels(v1, base_kind):
        """A declares p (and q); B redefines p; C derives from B; D is a
        sibling of B that does not, or redefines differently"""
        def run(ctx):
            base = Record if base_kind == "rec" else JsonRecord
            for v2 in names:
                for v3 in [None] + (names if ctx.thorough
                                    else ["any", "req", "json", "ro"]):
                    for early in (False, True):
                        def case():
                            A = type("A", (base,), dict(
                                p=variants[v1]["make"](),
                                q=Property(isa=int)))
                            wa = {"p": variants[v1], "q": variants["int"]}
                            if early:
                                probe_type(A, wa, base is JsonRecord)
                            B = type("B", (A,), dict(
                                p=variants[v2]["make"](), r=Property()))
                            wb = {"p": variants[v2], "q": variants["int"],
                                  "r": variants["any"]}
                            if early:
                                probe_type(B, wb, base is JsonRecord)
                            ns = dict(s=Property(isa=str))
                            wc = dict(wb, s=variants["str"])
                            if v3:
                                ns["q"] = variants[v3]["make"]()
                                wc["q"] = variants[v3]
                            if v3 == "json" and wc["p"].get("json"):
                                return
                            C = type("C", (B,), ns)
                            Dn = type("D", (A,), dict(t=Property()))
                            wd = dict(wa, t=variants["any"])
                            for T, w in ((C, wc), (Dn, wd), (B, wb),
                                         (A, wa)):
                                probe_type(T, w, base is JsonRecord)
                                ctx.step()
                            # instances of different types never equal
                            ctx.step()
                        ctx.run((base_kind, v1, v2, v3, early), case)
                        ctx.state()
        return run
    for v in names:
        for bk in ("rec", "json"):
            tasks.append(("two-levels/%s/%s" % (bk, v), two_levels(v, bk)))
    tasks.append(("declaration-orders", declaration_orders))
    tasks.append(("mixins", mixins))
    tasks.append(("collections", coll_inheritance))
    return tasks


def declaration_orders(ctx):
    """All orders of declaring and using a small hierarchy."""
    variants = hvariants()
    parents = {"A": None, "B": "A", "C": "B", "D": "A"}

    def linear():
        for perm in itertools.permutations(
            ["A", "B", "C", "D", "uA", "uB", "uC", "uD"]
        ):
            pos = {x: i for i, x in enumerate(perm)}
            if all(pos[n] > pos[p] for n, p in parents.items() if p) and \
                    all(pos["u" + n] > pos[n] for n in parents):
                yield perm

    def case(perm, over):
        made, want = {}, {}
        for ev in perm:
            if ev[0] == "u":
                probe_type(made[ev[1]], want[ev[1]], True)
                ctx.step()
                continue
            p = parents[ev]
            ns, w = {}, dict(want[p]) if p else {}
            if not p:
                ns = dict(x=variants["int"]["make"](),
                          y=variants["def"]["make"]())
                w = dict(x=variants["int"], y=variants["def"])
            for n, v in over.get(ev, {}).items():
                ns[n] = variants[v]["make"]()
                w[n] = variants[v]
            made[ev] = type(ev, (made[p] if p else JsonRecord,), ns)
            want[ev] = w
        for n in made:
            probe_type(made[n], want[n], True)
    overs = [
        {"B": {"x": "req"}, "C": {"y": "json"}, "D": {"x": "ro"}},
        {"B": {"x": "json", "z": "list"}, "C": {"x": "str"},
         "D": {"z": "req"}},
        {"B": {"y": "lazy"}, "C": {"y": "any"}, "D": {"y": "v1"}},
    ]
    n = 0
    for perm in linear():
        n += 1
        if not ctx.thorough and n % 1:
            continue
        for i, over in enumerate(overs):
            if not ctx.thorough and i != n % 3:
                continue
            ctx.run((perm, i), case, perm, over)
            ctx.state()


def mixins(ctx):
    """Types with two record bases, and plain mix-ins, have the properties of
    both."""
    variants = hvariants()

    def case(va, vb, vo, order):
        A = type("A", (JsonRecord,), dict(a=variants[va]["make"]()))
        B = type("B", (Record,), dict(b=variants[vb]["make"]()))

        class Plain(object):
            def hello(self):
                return "hello"
        bases = {"AB": (A, B), "BA": (B, A), "PA": (Plain, A),
                 "AP": (A, Plain), "PAB": (Plain, A, B)}[order]
        ns, w = {"c": Property(isa=int)}, {"c": variants["int"]}
        if A in bases:
            w["a"] = variants[va]
        if B in bases:
            w["b"] = variants[vb]
        if vo:
            ns["a"] = variants[vo]["make"]()
            w["a"] = variants[vo]
        if va == vb == "json" or vo == vb == "json":
            if B in bases and w["a"].get("json"):
                return
        C = type("C", bases, ns)
        probe_type(C, w, issubclass(C, JsonRecord) and order != "BA")
        E = type("E", (C,), {})
        probe_type(E, w, issubclass(C, JsonRecord) and order != "BA")
        if Plain in bases:
            req = {n: 1 for n, m in w.items() if m.get("required")}
            expect(E(**req).hello() == "hello", "lost method")
        probe_type(A, {"a": variants[va]}, True)
        probe_type(B, {"b": variants[vb]}, False)
        ctx.step(4)
    few = ["int", "req", "def", "json", "ro", "lazy"]
    names = sorted(variants) if ctx.thorough else few
    for va, vb in itertools.product(names, repeat=2):
        for vo in (None, "str", "req"):
            for order in ("AB", "BA", "PA", "AP", "PAB"):
                ctx.run((va, vb, vo, order), case, va, vb, vo, order)
                ctx.state()


def coll_inheritance(ctx):
    """Collections with properties inherit them too, and subclassing a
    collection does not change its base."""
    variants = hvariants()

    def case(kind, va, vb):
        base = ListCollection if kind == "list" else DictCollection
        initial = [1, "2"] if kind == "list" else {"k": "2"}
        A = type("A", (base,), dict(itemtype=int,
                                    a=variants[va]["make"]()))
        B = type("B", (A,), dict(itemtype=str, b=Property(isa=int)))
        C = type("C", (A,), dict(a=variants[vb]["make"]()))
        for T, w, it in ((B, {"a": variants[va], "b": variants["int"]}, str),
                         (C, {"a": variants[vb]}, int),
                         (A, {"a": variants[va]}, int)):
            good = {n: [3] if m.get("list") else "t"
                    if m.get("isa") is str else 3 for n, m in w.items()}
            expect(set(T.properties) == set(w), "%r", T.properties)
            o = T(initial, **good)
            for n in w:
                v = getattr(o, n)
                expect((list(v) if w[n].get("list") else v) == good[n],
                       "%s is %r", n, v)
                if w[n].get("isa") is int and not w[n].get("ro"):
                    expect(attempt(setattr, o, n, "x")[0] == "exc",
                           "unchecked")
            vals = list(o) if kind == "list" else [v for k, v in o.items()]
            expect(all(type(v) is it for v in vals) and len(vals) ==
                   len(initial), "items %r", vals)
            req = [n for n, m in w.items() if m.get("required")]
            expect((attempt(T, initial)[0] == "exc") == bool(req),
                   "required %r not honoured", req)
            ctx.step()
    names = sorted(variants)
    for kind in ("list", "dict"):
        for va, vb in itertools.product(names, repeat=2):
            ctx.run((kind, va, vb), case, kind, va, vb)
            ctx.state()


# -- C32 ---------------------------------------------------------------------

def _raises(x):
    raise RuntimeError("condition")


def _len2(x):
    return len(x) == 2


def conds(base):
    if base == "int":
        return {"lt5": lambda x: x < 5, "gt1": lambda x: x > 1,
                "odd": lambda x: x % 2, "raise3": lambda x: 6 // (x - 3) > -9,
                "never": lambda x: False, "raises": _raises,
                "falsy": lambda x: "" if x == 4 else "yes"}
    if base == "str":
        return {"len2": _len2, "digit": lambda s: s.isdigit(),
                "first": lambda s: s[0] == "a", "raises": _raises}
    if base == "rec":
        return {"a1": lambda r: r.a == 1, "set": lambda r: hasattr(r, "a"),
                "gt": lambda r: r.a > 1, "raises": _raises}
    if base == "list":
        return {"len2": _len2, "sum": lambda l: sum(l) < 5,
                "first": lambda l: l[0] == 1}
    raise KeyError(base)


class CR(Record):
    a = Property(isa=int)


class CRSub(CR):
    b = Property()


CL = list_of(int)

SUBVALUES = {
    "int": [0, 1, 2, 3, 4, 5, 6, True, False, -1, "3", "9", "x", 2.5, None,
            ""],
    "str": ["", "a", "ab", "12", "1", "b1", 12, None, b"ab"],
    "rec": [CR(), CR(a=0), CR(a=1), CR(a=2), CRSub(a=1), {"a": 1}, {}, None,
            5, "x"],
    "list": [CL([]), CL([1]), CL([1, 2]), CL([3, 4]), [1, 2], [9, 9], (1,),
             None, "12"],
}
SUBBASE = {"int": int, "str": str, "rec": CR, "list": CL}


def sub_coerces(base):
    if base == "int":
        return {"none": None, "int": int, "const": lambda v: 3,
                "bad": lambda v: "bad", "boom": _raises,
                "null": lambda v: None}
    if base == "str":
        return {"none": None, "str": str, "const": lambda v: "ab",
                "empty": lambda v: "",
                "null": lambda v: None}
    if base == "rec":
        return {"none": None, "rec": CR, "const": lambda v: CR(a=1)}
    return {"none": None, "list": CL, "const": lambda v: CL([1, 2])}


def holds(chain, base, v):
    if not isinstance(v, SUBBASE[base]):
        return False
    for name in chain:
        try:
            if not conds(base)[name](v):
                return False
        except Exception:
            return False
    return True


def tasks_C32(tier):
    tasks = []

    def chain_task(base, depth):
        def run(ctx):
            cs = sorted(conds(base))
            for chain in itertools.product(cs, repeat=depth):
                for ck in sorted(sub_coerces(base)):
                    coerce = sub_coerces(base)[ck]
                    # with coerce functions for all, only the last, or only
                    # those before it, which the last does not inherit
                    for on in ("last", "all", "before")[
                            :3 if depth > 1 and coerce else 1]:
                        T = SUBBASE[base]
                        types = []
                        for i, c in enumerate(chain):
                            last = i == len(chain) - 1
                            T = subtype(
                                "S%d" % i, of=T, where=conds(base)[c],
                                coerce=coerce if on == "all" or
                                last == (on == "last") else None)
                            types.append(T)
                        subtype_case(ctx, base, chain, ck + " " + on, coerce if
                                     on != "before" else None, types)
                        ctx.state()
            ctx.bound(chain=depth)
        return run
    for base in sorted(SUBBASE):
        for depth in (1, 2, 3):
            if depth == 3 and tier == "quick" and base in ("int",):
                continue
            tasks.append(("chain/%s/%d" % (base, depth),
                          chain_task(base, depth)))
    tasks.append(("number-tower", number_tower))
    tasks.append(("unions", subtype_unions))
    tasks.append(("refused", subtype_refused))
    return tasks


def same(a, b):
    return type(a) is type(b) and a == b


def subtype_case(ctx, base, chain, ck, coerce, types):
    T = types[-1]

    def model_new(v):
        """('ok', value, same object?) or ('exc',)"""
        if holds(chain, base, v):
            return ("ok", v, True)
        if coerce is None:
            return ("exc",)
        try:
            c = coerce(v)
        except Exception:
            return ("exc",)
        if not holds(chain, base, c):
            return ("exc",)
        return ("ok", c, False)

    def inst(i, v):
        for n in range(len(types)):
            want = holds(chain[:n + 1], base, v)
            expect(isinstance(v, types[n]) is want,
                   "isinstance(%r, %s level %d) is %r", v, chain, n,
                   not want)
        ctx.step()

    def call(i, v):
        want = model_new(v)
        r = attempt(T, v)
        ctx.step()
        if want[0] == "exc":
            expect(r[0] == "exc", "calling the subtype with %r gave %r", v,
                   r[1])
            kind = exc.SubtypeNoCoerceFunc
            if coerce:
                c = attempt(coerce, v)
                kind = exc.SubtypeCoerceError if c[0] == "ok" else type(c[1])
            expect(type(r[1]) is kind, "calling the subtype with %r raised "
                   "%r", v, r[1])
        else:
            expect(r[0] == "ok", "calling the subtype with %r raised %r", v,
                   r[1])
            expect(r[1] is v if want[2] else same(r[1], want[1]),
                   "calling the subtype with %r gave %r", v, r[1])

    P = type("P", (Record,), dict(
        x=Property(isa=T), y=Property(isa=T, coerce=coerce)
        if coerce else Property(isa=T)))

    def slot(i, v, n):
        want = model_new(v)
        for how in ("new", "set"):
            if how == "new":
                r = attempt(lambda: P(**{n: v}))
                o = r[1]
            else:
                o = P()
                r = attempt(setattr, o, n, v)
            ctx.step()
            if want[0] == "exc":
                # a coerce function giving None for an optional property
                swallow = False
                if how == "new" and coerce is not None and \
                        not holds(chain, base, v):
                    c = attempt(coerce, v)
                    swallow = c[0] == "ok" and c[1] is None
                if swallow:
                    expect(r[0] == "exc" or n not in vars(o), "%r", r)
                    continue
                expect(r[0] == "exc" and isinstance(r[1], TypeError),
                       "%s %s=%r: %r", how, n, v, r)
            else:
                expect(r[0] == "ok", "%s %s=%r: %r", how, n, v, r)
                got = getattr(o, n)
                expect(got is v if want[2] else same(got, want[1]),
                       "%s %s=%r reads %r", how, n, v, got)
                expect(isinstance(got, T), "not an instance")

    L = type("L", (ListCollection,), dict(itemtype=T))

    def items(i, v):
        want = model_new(v)
        for how in ("new", "append"):
            if how == "new":
                r = attempt(L, [v])
                o = r[1]
            else:
                o = L()
                r = attempt(o.append, v)
            ctx.step()
            if want[0] == "exc":
                expect(r[0] == "exc" and isinstance(r[1], TypeError),
                       "%s %r: %r", how, v, r)
                if how == "append":
                    expect(len(o) == 0, "refused but added")
            else:
                expect(r[0] == "ok", "%s %r: %r", how, v, r)
                got = o[0]
                expect(got is v if want[2] else same(got, want[1]),
                       "%s %r holds %r", how, v, got)

    for i, v in enumerate(SUBVALUES[base]):
        spec = (base, chain, ck, i)
        ctx.run(spec + ("isinstance",), inst, i, v)
        ctx.run(spec + ("call",), call, i, v)
        ctx.run(spec + ("slot",), slot, i, v, "x")
        ctx.run(spec + ("slotc",), slot, i, v, "y")
        ctx.run(spec + ("list",), items, i, v)


def number_tower(ctx):
    """subtypes of abstract and predefined types"""
    bases = {
        "Integral": (numbers.Integral, lambda v: v > 1),
        "Number": (numbers.Number, lambda v: v > 1),
        "date": (PT.date, lambda d: d.year > 2000),
        "datetime": (datetime.datetime, lambda d: d.year > 2000),
        "object": (object, lambda v: bool(v)),
        "dict": (dict, lambda d: "k" in d),
        "tuple": (tuple, lambda t: t[0] == 1),
    }
    values = [0, 1, 2, True, 2.5, 1j, "x", None, [], {}, {"k": 1}, (), (1,),
              datetime.date(2000, 1, 1), datetime.date(2001, 1, 1),
              datetime.datetime(2000, 1, 1), datetime.datetime(2001, 1, 1)]

    def case(name, v):
        of, where = bases[name]
        T = subtype("T", of=of, where=where)
        U = subtype("U", of=T, where=lambda v: v != 2)
        try:
            want = isinstance(v, of) and bool(where(v))
        except Exception:
            want = False
        expect(isinstance(v, T) is want, "isinstance(%r, %s) is %r", v, name,
               not want)
        wantu = want and v != 2
        expect(isinstance(v, U) is wantu, "isinstance(%r, U of %s) is %r", v,
               name, not wantu)
        r = attempt(U, v)
        expect((r[0] == "ok") is wantu, "U(%r): %r", v, r)
        if wantu:
            expect(r[1] is v, "U(%r) is %r", v, r[1])
        ctx.step(3)
    for name in sorted(bases):
        for v in values:
            ctx.run((name, repr(v)), case, name, v)
            ctx.state()


def subtype_unions(ctx):
    """properties typed by a tuple of subtypes, with a coerce function"""
    small = subtype("small", of=int, where=lambda x: x < 3)
    big = subtype("big", of=int, where=lambda x: x > 7)
    word = subtype("word", of=str, where=lambda s: s.isalpha())

    def ok(v):
        return (isinstance(v, int) and (v < 3 or v > 7)) or \
            (isinstance(v, str) and v.isalpha())

    class T(Record):
        x = Property(isa=(small, big, word), coerce=lambda v: int(v))
        y = Property(isa=(word, small), coerce=lambda v: int(v))

    def oky(v):
        return (isinstance(v, int) and v < 3) or \
            (isinstance(v, str) and v.isalpha())

    def case(v, n, good):
        o = T()
        r = attempt(setattr, o, n, v)
        ctx.step()
        if good(v):
            expect(r[0] == "ok" and getattr(o, n) is v, "%s=%r: %r", n, v, r)
            return
        try:
            c = int(v)
        except Exception:
            c = None
        if c is not None and good(c):
            expect(r[0] == "ok" and getattr(o, n) == c, "%s=%r: %r", n, v, r)
        else:
            expect(r[0] == "exc" and isinstance(r[1], TypeError), "%s=%r: %r",
                   n, v, r)
            expect(not vars(o), "set anyway")
    for v in (-1, 0, 2, 3, 7, 8, True, "a", "", "2", "5", "9", "a1", None,
              2.5, 5.0, [], CR()):
        for n, good in (("x", ok), ("y", oky)):
            ctx.run((repr(v), n), case, v, n, good)
            ctx.state()


def subtype_refused(ctx):
    for of in (None, 5, "int", (int, str), [int]):
        def case():
            r = attempt(lambda: subtype("T", of=of, where=bool))
            ctx.step()
            expect(r[0] == "exc", "subtype of %r accepted", of)
        ctx.run((repr(of),), case)
        ctx.state()


# -- C33 ---------------------------------------------------------------------

DT = datetime.datetime
X = "<refused>"


class MyDate(datetime.date):
    pass


class MyDT(datetime.datetime):
    pass


class HasDate(object):
    def date(self):
        return D(2001, 2, 3)


class IntLike(object):
    def __int__(self):
        return 12

    def __index__(self):
        return 12


EAST = datetime.timezone(datetime.timedelta(hours=9))
HASDATE, INTLIKE = HasDate(), IntLike()


def iso_texts():
    """(text, datetime it denotes)"""
    out = []
    for y, m, d in ((2014, 2, 28), (2016, 2, 29), (1999, 12, 31), (2000, 1, 1),
                    (1900, 3, 9), (2014, 11, 10)):
        out.append(("%04d-%02d-%02d" % (y, m, d), DT(y, m, d)))
        out.append(("%04d%02d%02d" % (y, m, d), DT(y, m, d)))
        for H, M, S in ((0, 0, 0), (23, 59, 59), (9, 5, 7), (12, 30, 0)):
            out.append(("%04d-%02d-%02dT%02d:%02d:%02d" % (y, m, d, H, M, S),
                        DT(y, m, d, H, M, S)))
            out.append(("%04d-%02d-%02d %02d:%02d:%02d" % (y, m, d, H, M, S),
                        DT(y, m, d, H, M, S)))
            out.append(("%04d-%02d-%02dT%02d:%02d" % (y, m, d, H, M),
                        DT(y, m, d, H, M)))
            # the same moments marked as UTC (see same_moment)
            out.append(("%04d-%02d-%02dT%02d:%02dZ" % (y, m, d, H, M),
                        DT(y, m, d, H, M)))
            out.append(("%04d-%02d-%02dT%02d:%02d:%02dZ" % (y, m, d, H, M, S),
                        DT(y, m, d, H, M, S)))
        out.append(("%02d%02d%02d" % (y % 100, m, d), DT(y, m, d))
                   if 1969 <= y < 2069 else ("%04d%02d%02d" % (y, m, d),
                                             DT(y, m, d)))
    return out


def same_moment(v, want, raw):
    """texts ending in Z may be read as aware or as naive moments"""
    if isinstance(raw, str) and raw.endswith("Z") and isinstance(v, DT) and \
            v.tzinfo is not None:
        return v.utcoffset() == datetime.timedelta(0) and \
            v.replace(tzinfo=None) == want
    return type(v) is type(want) and v == want


BADTEXT = ("", "x", "2014-13-01", "2014-02-30", "2015-02-29", "2014-02-28T25:00:00",
           "2014-02-28T12:60:00", "20140228x", "12", "2014-2-3-4-5")


def c33_cases():
    ints = [
        (0, 0), (1, 1), (-7, -7), (True, True), (2 ** 70, 2 ** 70),
        ("5", 5), ("-5", -5), (" 6 ", 6), ("1_0", 10), (2.9, 2), (-2.9, -2),
        (b"7", 7), (INTLIKE, 12), ("", X), ("x", X), ("2.5", X), (None, X),
        ([], X), ({}, X), (1j, X), (float("inf"), X), (float("nan"), X),
        (object(), X), (D(2000, 1, 1), X),
    ]
    yield "IntProperty", int, ints
    yield "LongProperty", int, ints
    yield "IntegerProperty", numbers.Integral, ints
    yield "FloatProperty", float, [
        (0.0, 0.0), (1.5, 1.5), (float("inf"), float("inf")), (1, 1.0),
        (True, 1.0), ("2.5", 2.5), ("3", 3.0), (" -1e3 ", -1000.0),
        (2 ** 60, float(2 ** 60)), ("inf", float("inf")), ("", X), ("x", X),
        (None, X), ([], X), (1j, X), (10 ** 400, X),
    ]
    yield "NumberProperty", numbers.Number, [
        (0, 0), (1.5, 1.5), (1j, 1j), (True, True), ("5", 5), ("-3", -3),
        ("2.5", 2.5), ("1e2", 100.0), (" 7 ", 7), ("", X), ("x", X),
        ("1E5", 100000.0), ("-2.5E-1", -0.25), ("inf", float("inf")),
        ("Infinity", float("inf")), ("1_0", 10), ("1_0.5", 10.5), (".5", 0.5),
        ("5.", 5.0), ("+4", 4), ("0x10", X), ("1e", X),
        (None, X), ([], X), ("1j", X), (2 ** 70, 2 ** 70),
        ("9" * 30, int("9" * 30)),
    ]
    texts = [
        ("", ""), ("a", "a"), ("é\u0301", "é\u0301"), (5, "5"),
        (None, "None"), (2.5, "2.5"), ([], "[]"), (b"z", "b'z'"),
    ]
    yield "StringProperty", str, texts
    yield "UnicodeProperty", str, [
        ("", ""), ("a", "a"), ("é\u0301", "é\u0301"), (5, X), (None, X),
        (2.5, X), ([], X), (b"z", X),
    ]
    dates = [
        (D(2000, 1, 1), D(2000, 1, 1)), (MyDate(2000, 1, 2), MyDate(2000, 1, 2)),
        (DT(2000, 1, 3), D(2000, 1, 3)),
        (DT(2000, 1, 3, 23, 59, 59, 5), D(2000, 1, 3)),
        (MyDT(2000, 1, 4, 1, 2), D(2000, 1, 4)),
        (DT(2000, 1, 5, 23, 30, tzinfo=EAST), D(2000, 1, 5)),
        (D.min, D.min), (D.max, D.max), (HASDATE, D(2001, 2, 3)),
        (5, X), (None, X), (2.5, X), ([], X), (b"2000-01-01", X),
    ] + [(t, dt.date()) for t, dt in iso_texts()] + [
        (t, X) for t in BADTEXT]
    yield "DateProperty", datetime.date, dates
    dts = [
        (DT(2000, 1, 3), DT(2000, 1, 3)),
        (DT(2000, 1, 3, 4, 5, 6, 7), DT(2000, 1, 3, 4, 5, 6, 7)),
        (MyDT(2000, 1, 4, 1, 2), MyDT(2000, 1, 4, 1, 2)),
        (DT(2000, 1, 5, 23, 30, tzinfo=EAST),
         DT(2000, 1, 5, 23, 30, tzinfo=EAST)),
        (D(2000, 1, 1), DT(2000, 1, 1)), (D.min, DT(1, 1, 1)),
        (MyDate(2000, 1, 2), DT(2000, 1, 2)), (DT.max, DT.max),
        (5, X), (None, X), (2.5, X), ([], X), (b"2000-01-01", X),
    ] + list(iso_texts()) + [(t, X) for t in BADTEXT]
    yield "DatetimeProperty", DT, dts


fresh = itertools.count()


def tasks_C33(tier):
    tasks = []

    def kind_task(pname, isa, cases):
        box = []

        def run(ctx):
            box[:] = [ctx]
            P = getattr(PT, pname)

            def conforming(v):
                if pname == "DateProperty":
                    return isinstance(v, D) and not isinstance(v, DT)
                return isinstance(v, isa)
            variants = {
                "plain": dict(), "required": dict(required=True),
                "json": dict(json_name="q"), "ro": dict(traits=["ro"]),
                "v1": dict(v1_none=None),
                "check": dict(check=lambda v: True),
                "extraneous": dict(extraneous=True),
                "lazy": dict(lazy=True),
            }
            for vn, kw in sorted(variants.items()):
                for base in (Record, JsonRecord):
                    for i, (raw, want) in enumerate(cases):
                        ctx.run((pname, vn, base.__name__, i, repr(raw)),
                                case, P, pname, vn, kw, base, raw, want,
                                conforming)
                        ctx.state()
            # json round trip
            for base in (Record, JsonRecord):
                for i, (raw, want) in enumerate(cases):
                    if want is not X:
                        ctx.run((pname, "round", base.__name__, i, repr(raw)),
                                round_trip, P, pname, base, raw, want)
            # in lists and dictionaries of records
            T = type("T", (JsonRecord,), dict(p=P()))
            for i, (raw, want) in enumerate(cases):
                ctx.run((pname, "nested", i, repr(raw)), nested, T, pname,
                        raw, want)

        def value_ok(got, raw, want, conforming, what):
            expect(conforming(got), "%s: holds %r", what, got)
            if conforming(raw):
                expect(got is raw, "%s: %r was replaced by %r", what, raw,
                       got)
            else:
                expect(same_moment(got, want, raw),
                       "%s: %r became %r, expected %r", what, raw, got, want)

        def case(P, pname, vn, kw, base, raw, want, conforming):
            if vn == "lazy":
                kw = dict(kw, default=lambda: raw)
            T = type("T", (base,), dict(p=P(**kw)))
            r = attempt(T, p=raw)
            box[0].step()
            if vn == "lazy":
                o = T()
                r2 = attempt(getattr, o, "p")
                if want is X:
                    expect(r2[0] == "exc" and isinstance(r2[1], TypeError),
                           "lazy %r gave %r", raw, r2)
                else:
                    expect(r2[0] == "ok", "lazy %r: %r", raw, r2)
                    value_ok(r2[1], raw, want, conforming, "lazy")
            if want is X:
                if raw is None and r[0] == "ok":
                    # a coerce function giving None for an optional property
                    expect("p" not in vars(r[1]) and vn != "required",
                           "None was stored: %r", r[1])
                else:
                    expect(r[0] == "exc" and isinstance(r[1], TypeError) and
                           isinstance(r[1], exc.NormalizeError),
                           "new(%r): %r", raw, r)
            else:
                expect(r[0] == "ok", "new(%r): %r", raw, r)
                value_ok(r[1].p, raw, want, conforming, "new")
            first = next(w for _, w in cases if w is not X)
            for o in ((T(p=first),) if vn == "required"
                      else (T(), T(p=first))):
                had = vars(o).get("p", UNSET)
                r = attempt(setattr, o, "p", raw)
                box[0].step()
                if vn == "ro":
                    expect(r[0] == "exc" and isinstance(
                        r[1], AttributeError), "read-only: %r", r)
                elif want is X and vn == "v1" and raw is None:
                    expect(r[0] == "ok" and o.p is None, "clearing: %r", r)
                    continue
                elif want is X:
                    expect(r[0] == "exc" and isinstance(r[1], TypeError) and
                           isinstance(r[1], exc.NormalizeError),
                           "set(%r): %r", raw, r)
                else:
                    expect(r[0] == "ok", "set(%r): %r", raw, r)
                    value_ok(o.p, raw, want, conforming, "set")
                    continue
                expect(vars(o).get("p", UNSET) is had, "refused, but now %r",
                       o)

        def nested(T, pname, raw, want):
            L, M = list_of(T), dict_of(T)
            for build, get in (
                (lambda: L([{"p": raw}]), lambda o: o[0].p),
                (lambda: M({"k": {"p": raw}}), lambda o: o["k"].p),
                (lambda: T(p=raw), lambda o: o.p),
            ):
                r = attempt(build)
                box[0].step()
                if want is X:
                    if r[0] == "ok":
                        expect(raw is None, "accepted %r", raw)
                    else:
                        expect(isinstance(r[1], TypeError), "%r: %r", raw, r)
                else:
                    expect(r[0] == "ok", "%r: %r", raw, r)
                    v = get(r[1])
                    expect(v is raw or same_moment(v, want, raw),
                           "%r became %r", raw, v)

        def round_trip(P, pname, base, raw, want):
            import json
            T = type("T", (base,), dict(
                p=P(), l=ListProperty(of=type("I%d" % next(
                    fresh), (base,), dict(p=P())))))
            o = T(p=raw)
            v = o.p
            if isinstance(v, complex):
                return          # JSON has none
            data = to_json(o)
            box[0].step()
            expect(list(data) == ["p"], "JSON data %r", data)
            if pname == "DateProperty":
                expect(data["p"] == v.isoformat(), "date as %r", data["p"])
            elif pname == "DatetimeProperty":
                expect(data["p"] == v.isoformat(), "datetime as %r",
                       data["p"])
                if v.microsecond or v.tzinfo:
                    return     # read back only to the second, without zone
            elif v in (float("inf"),):
                return
            if isinstance(v, int) and abs(v) > 2 ** 50 and \
                    pname in ("StringProperty",):
                return
            if pname != "NumberProperty" or not isinstance(v, int) or \
                    abs(v) < 2 ** 50:
                text = json.loads(json.dumps(data))
            else:
                text = data
            back = from_json(T, text)
            if isinstance(v, MyDate):
                expect(back.p == D(v.year, v.month, v.day), "%r", back.p)
            else:
                expect(back.p == v, "%r wrote %r, reads back %r", v, data,
                       back.p)
            # through a list of records
            o = T(l=[{"p": v}])
            back = from_json(T, json.loads(json.dumps(to_json(o))))
            expect(back.l[0].p == v, "%r reads back %r", v, back)
            box[0].step()
        return run

    for pname, isa, cases in c33_cases():
        tasks.append((pname, kind_task(pname, isa, cases)))
    tasks.append(("dates-exhaustive", dates_exhaustive))
    return tasks


def dates_exhaustive(ctx):
    """every day of several years, every second of a day around the edges"""
    class T(JsonRecord):
        d = PT.DateProperty()
        t = PT.DatetimeProperty()
    years = range(1999, 2005) if not ctx.thorough else range(1, 9999, 7)

    def day(dt):
        iso = dt.isoformat()
        a = from_json(T, {"d": iso, "t": iso})
        expect(a.d == dt and type(a.d) is D, "%s reads as %r", iso, a.d)
        expect(a.t == DT(dt.year, dt.month, dt.day), "%s reads as %r", iso,
               a.t)
        b = T(d=DT(dt.year, dt.month, dt.day, 13, 14, 15), t=dt)
        expect(b.d == dt and b.t == a.t, "%r", b)
        expect(to_json(b) == {"d": iso, "t": iso + "T00:00:00"}, "%r",
               to_json(b))
        expect(from_json(T, to_json(b)) == b, "%r", to_json(b))
        ctx.step(3)

    def year(y):
        dt = D(y, 1, 1)
        while dt.year == y:
            day(dt)
            if dt == D.max:
                break
            dt += datetime.timedelta(1)
    for y in years:
        ctx.run(("year", y), year, y)
        ctx.state()

    def minute(h, m):
        for s in range(60):
            v = DT(2004, 2, 29, h, m, s)
            o = T(t=v)
            expect(from_json(T, to_json(o)).t == v, "%r", to_json(o))
            expect(T(t=v.isoformat()).t == v and
                   T(t=v.isoformat(" ")).t == v and
                   T(d=v.isoformat()).d == v.date(), "%r", v)
        ctx.step(60)
    for h in range(24):
        for m in range(60):
            ctx.run(("minute", h, m), minute, h, m)
