"""C28, C29: visiting objects, casting back and reflecting over types, compared
with a reference traversal of plain descriptions (trees)."""
import itertools

from normalize import (
    DictCollection, DictProperty, ListCollection, ListProperty, Property,
    Record, V1Property,
)
from normalize import exc
from normalize.coll import dict_of, list_of
from normalize.property import LazyProperty, ROProperty, SafeProperty
from normalize.record.json import JsonRecord, JsonRecordList
from normalize.selector import MultiFieldSelector
from normalize.visitor import VisitorPattern

from . import universe as U
from .c_diff import (
    DECL, Model, chunks, decl, filters, prune, space, type_paths,
)
from .core import attempt, expect, fail, subsets
from .universe import D, L, NOTHING, R, TYPES, build, complete, is_tree, show


class Nul(Record):
    """null values and unions in places for records and collections"""
    leaf = Property(isa=U.Leaf, v1_none=None)
    empt = Property(isa=U.Leaf, v1_none="")
    tags = ListProperty(of=str, v1_none=None)
    u = Property(isa=(U.Leaf, type(None)))
    v = Property(isa=(int, U.Leaf))
    w = Property(isa=U.NList, v1_none=None)


class XList(ListCollection):
    itemtype = str
    title = Property(isa=str)


class XHolder(Record):
    xl = Property(isa=XList)
    xd = DictProperty(of=XList)
    nn = DictProperty(of=list_of(U.Leaf))


TYPES.update({t.__name__: t for t in (Nul, XList, XHolder)})
for _p in XHolder.properties.values():
    TYPES.setdefault(_p.valuetype.__name__, _p.valuetype)
    TYPES.setdefault(_p.valuetype.itemtype.__name__, _p.valuetype.itemtype)

DECL.update(
    Nul=decl("leaf empt tags u v w", v1="leaf empt tags w", leaf="Leaf",
             empt="Leaf", tags="strList", w="NList"),
    XList=decl("title"),
    XHolder=decl("xl xd nn", xl="XList", xd="XListMap", nn="LeafListMap"),
    XListMap=decl(item="XList"), LeafListMap=decl(item="LeafList"),
    JNList=decl("title unknown_json_keys", ex="unknown_json_keys",
                item="JLeaf"),
    JNDict=decl("title unknown_json_keys", ex="unknown_json_keys",
                item="JLeaf"),
    JHolder=decl("jn jm unknown_json_keys", ex="unknown_json_keys",
                 jn="JNList", jm="JNDict"),
)
DECL.setdefault("intList", decl())
NULLS = {("Nul", "empt"): ""}
SPACE_LEVEL = {"Leaf": 0, "Node": 0, "KNode": 0, "Holder": 1, "Opt": 0,
               "NList": 1, "NDict": 1, "JLeaf": 0, "JNode": 0, "JNList": 1,
               "JNDict": 1, "JHolder": 1, "LeafList": 1, "LeafMap": 1,
               "strList": 1, "intListMap": 1, "intListList": 1, "Keyed": 1}


def objects(name, thorough):
    if name == "Nul":
        l1 = R("Leaf", a=1)
        al = dict(leaf=[R("Leaf"), l1], empt=[R("Leaf"), l1],
                  tags=[L("strList"), L("strList", ["x", ""])],
                  u=[None, R("Leaf"), l1], v=[0, 1, l1],
                  w=[L("NList"), L("NList", [l1], name="n")])
        return [complete(R("Nul", **s)) for s in U.vary(al, 2)]
    if name == "XHolder":
        xs = [L("XList"), L("XList", ["a", ""]), L("XList", ["b"], title="t"),
              L("XList", title="")]
        al = dict(xl=xs, xd=[D("XListMap")] + [
            D("XListMap", {"k": x, 1: xs[1]}) for x in xs],
            nn=[D("LeafListMap"), D("LeafListMap", {
                "a": L("LeafList", [R("Leaf", a=1), R("Leaf")]),
                "b": L("LeafList")})])
        return [complete(R("XHolder", **s)) for s in U.vary(al, 3)]
    if name == "XList":
        return [L("XList", list(c), **s) for n in range(3)
                for c in itertools.product(["a", "", "b"], repeat=n)
                for s in ({}, {"title": ""}, {"title": "t"})]
    level = SPACE_LEVEL[name] + (1 if thorough and name != "Leaf" else 0)
    rv, seen = [], set()
    for t in U.trees(name, level):
        t = complete(t)
        if repr(t) not in seen:
            seen.add(repr(t))
            rv.append(t)
    return rv


NAMES = sorted(SPACE_LEVEL) + ["Nul", "XHolder", "XList"]
OPTS = dict(extraneous=False, ignore_none=True, ignore_empty_string=False,
            apply_empty_slots=False)


class Visit(object):
    """the reference: what visiting a tree gives, and every conversion"""
    def __init__(self, filt=None, convert=lambda v: v, **opts):
        self.__dict__.update(OPTS)
        self.__dict__.update(opts)
        self.filt = None if filt is None else frozenset(filt)
        self.convert = convert
        self.m = Model()
        self.calls = []

    def sub(self, filt, key):
        return None if filt is None else self.m.sub(filt, (key,))

    def hidden(self, filt, key):
        return filt is not None and self.m.sub(filt, (key,)) is None

    def shown(self, tname, filt):
        d = DECL[tname]
        return [s for s in d["slots"] if
                (self.extraneous or s not in d["ex"]) and
                not self.hidden(filt, s)]

    def drop(self, v):
        return v is None and self.ignore_none or \
            self.ignore_empty_string and isinstance(v, str) and v == ""

    def top(self, t):
        return self.visit(t, t[1], self.filt, ())

    def one(self, v, name, path):
        self.calls.append((path, name, v))
        return self.convert(v)

    def visit(self, t, tname, filt, path):
        d = DECL[tname]
        coll = None
        if t[0] == "L":
            coll = []
        elif t[0] == "D":
            coll = {}
        for k, v in ([] if coll is None else enumerate(t[2])
                     if t[0] == "L" else t[2].items()):
            if self.hidden(filt, k):
                continue
            itype = TYPES[tname].itemtype
            if issubclass(itype, Record):
                v = self.visit(v, itype.__name__, self.sub(filt, k),
                               path + (k,))
            else:
                v = self.one(v, None, path + (k,))
            if self.drop(v):
                continue
            if t[0] == "L":
                coll.append(v)
            else:
                coll[k] = v
        out = {}
        for s in self.shown(tname, filt):
            v = t[-1].get(s, U.LAZY.get(tname, {}).get(s, NOTHING))
            if v is NOTHING and s in d["v1"]:
                v = NULLS.get((tname, s))
            if v is NOTHING:
                if not self.apply_empty_slots:
                    continue
                self.calls.append((path + (s,), s, NOTHING))
                v = None
            elif is_tree(v):
                v = self.visit(v, d["types"].get(s, v[1]), self.sub(filt, s),
                               path + (s,))
            else:
                v = self.one(v, s, path + (s,))
            if not self.drop(v):
                out[s] = v
        if coll is None:
            return out
        if self.shown(tname, filt):
            out["values"] = coll
            return out
        return coll


class Recorder(VisitorPattern):
    log = None

    @classmethod
    def apply(cls, value, prop, visitor):
        rv = super(Recorder, cls).apply(value, prop, visitor)
        cls.log.append((tuple(visitor.field_selector.selectors),
                        prop and prop.name,
                        NOTHING if isinstance(value, AttributeError)
                        else value))
        return rv


class Boxing(VisitorPattern):
    """a conversion of every scalar, and back"""
    @classmethod
    def apply(cls, value, prop, visitor):
        return None if value is None else ("box", value)

    @classmethod
    def reverse(cls, value, prop, visitor):
        if isinstance(value, KeyError) or value is None:
            return None
        expect(isinstance(value, tuple) and value[0] == "box",
               "conversion back of %r", value)
        return value[1]


def box(v):
    return None if v is None else ("box", v)


def castable(t, m, filt=None):
    """is everything of the declared type, and no record in an untyped slot?
    (the null value of an unset slot is not always accepted, either)"""
    if not is_tree(t):
        return True
    d = DECL[t[1]]
    for s in d["v1"]:
        if s in m.shown(t[1], filt) and s not in t[-1] and \
                not m.drop(NULLS.get((t[1], s))):
            return False
    for s, v in t[-1].items():
        if is_tree(v):
            want = d["types"].get(s)
            if want is None and t[1] != "Nul" or want and want != v[1]:
                return False
            if t[1] == "Nul" and s in "uv" and not v[2]:
                # an empty record, where it may also be something else
                return False
            if not castable(v, m):
                return False
    if t[0] != "R":
        for v in t[2] if t[0] == "L" else t[2].values():
            if is_tree(v):
                if d["item"] and v[1] != d["item"] or \
                        not castable(v, m):
                    return False
    return True


def back(t, m, filt):
    """the tree expected when casting back what visiting t gives"""
    d = DECL[t[1]]
    slots = {}
    for s in m.shown(t[1], filt):
        v = t[-1].get(s, U.LAZY.get(t[1], {}).get(s, NOTHING))
        if v is NOTHING or m.drop(v):
            continue
        if is_tree(v):
            v = back(v, m, m.sub(filt, s))
        slots[s] = v
    slots = complete(("R", t[1], slots))[2]
    if t[0] == "R":
        return t[:2] + (slots,)

    def item(k, v):
        return back(v, m, m.sub(filt, k)) if is_tree(v) else v
    items = [(k, item(k, v)) for k, v in
             (enumerate(t[2]) if t[0] == "L" else t[2].items())
             if not m.hidden(filt, k) and not m.drop(v)]
    return t[:2] + ([v for k, v in items] if t[0] == "L" else dict(items),
                    slots)


def eager(t):
    """with the lazy values evaluated"""
    if not is_tree(t):
        return t
    slots = {k: eager(v) for k, v in dict(
        U.LAZY.get(t[1], {}), **t[-1]).items()}
    if t[0] == "R":
        return t[:2] + (slots,)
    if t[0] == "L":
        return t[:2] + ([eager(v) for v in t[2]], slots)
    return t[:2] + ({k: eager(v) for k, v in t[2].items()}, slots)


def check_visit(t, o, filt=None, **opts):
    """one object, one set of options: visit, conversions, and back"""
    kw = dict(opts)
    if t[1] == "Nul" and not is_tree(t[2].get("v")) and "v" in t[2] and \
            opts.get("apply_empty_slots"):
        return 0        # any value is like a record without its slots
    if filt is not None:
        kw["filter"] = [list(p) for p in filt]
    m = Visit(filt, **opts)
    want = m.top(t)
    what = "%s with %s" % (show(t), kw)
    got = VisitorPattern.visit(o, **kw)
    expect(U.same(got, want), "%s gives %r, not %r", what, got, want)
    Recorder.log = []
    again = Recorder.visit(o, **kw)
    expect(U.same(again, want), "%s gives %r when repeated, not %r", what,
           again, want)
    calls = sorted(Recorder.log, key=repr)
    expected = sorted(m.calls, key=repr)
    expect(calls == expected, "%s: converts %s, not %s", what, calls,
           expected)
    now = U.observe(o)
    expect(U.same(U.strip_lazy(now), U.strip_lazy(t)), "%s: changed to %s",
           what, show(now))
    steps = 2
    if opts.get("apply_empty_slots") or not castable(t, m, m.filt):
        return steps
    if any(isinstance(x, int) for p in filt or () for x in p):
        # the items selected have other indexes in the result
        return steps
    final = eager(back(t, m, m.filt))
    for pattern, data, kws in (
        (VisitorPattern, got, kw), (VisitorPattern, got, dict(opts)),
        (Boxing, Boxing.visit(o, **kw), kw),
    ):
        if pattern is Boxing:
            if opts.get("ignore_empty_string"):
                continue        # what is converted is not empty
            bm = Visit(filt, box, **opts)
            w = bm.top(t)
            expect(data == w, "%s, converting: %r, not %r", what, data, w)
        elif filt is not None and kws is not kw and \
                not _same_shape(t[1], m, m.filt):
            continue
        c = pattern.cast(type(o), data, **kws)
        r = eager(U.observe(c))
        expect(U.same(r, final), "%s, visited as %r and cast back: %s, not "
               "%s", what, data, show(r), show(final))
        steps += 1
    if filt is not None:
        # the filter also applies when casting data with everything in it
        full = VisitorPattern.visit(o, **opts)
        if _same_shape(t[1], m, m.filt):
            c = VisitorPattern.cast(type(o), full, **kw)
            r = eager(U.observe(c))
            expect(U.same(r, final), "%s, visited without and cast with "
                   "filter: %s, not %s", what, show(r), show(final))
            steps += 1
    return steps


def _same_shape(tname, m, filt):
    """collections with properties look different when those are hidden"""
    d = DECL[tname]
    if issubclass(TYPES[tname], (ListCollection, DictCollection)):
        if bool(m.shown(tname, None)) != bool(m.shown(tname, filt)):
            return False
        if filt is not None and d["item"] and () not in filt:
            for h in {p[0] for p in filt}:
                if not _same_shape(d["item"], m, m.sub(filt, h)):
                    return False
    for s in m.shown(tname, filt):
        t = d["types"].get(s)
        if t and not _same_shape(t, m, m.sub(filt, s)):
            return False
    return True


class Touchy(object):
    """may not be compared with anything"""
    def __eq__(self, other):
        raise TypeError("not to be compared")
    __ne__ = __eq__
    __hash__ = object.__hash__


class Empty(str):
    pass


def odd_values(ctx):
    """values which cannot be compared with text, or are nearly empty"""
    from normalize.selector import FieldSelector
    T = Touchy()
    values = [T, FieldSelector([]), FieldSelector(["a", 0]),
              MultiFieldSelector(["a"]), b"", "", " ", Empty(""), Empty("x"),
              0, False, 0.0, None, (), [], {}, set(), NotImplemented]

    class Odd(Record):
        any = Property()
        sel = Property(isa=FieldSelector)
        tou = Property(isa=Touchy)

    class Odds(Record):
        one = Property(isa=Odd)
        sels = ListProperty(of=FieldSelector)
        tous = DictProperty(of=Touchy)

    def dropped(v, opts):
        return v is None and opts["ignore_none"] or isinstance(v, str) and \
            v == "" and opts["ignore_empty_string"]

    def case(v, opts):
        kw = dict(any=v)
        if isinstance(v, FieldSelector):
            kw["sel"] = v
        elif v is T:
            kw["tou"] = v
        o = Odds(one=Odd(**kw))
        if isinstance(v, FieldSelector):
            o.sels = [v, v]
        elif v is T:
            o.tous = {"k": v}
        data = VisitorPattern.visit(o, **opts)
        want = {"one": {} if dropped(v, opts) else kw}
        expect(set(data) == {"one"} | set(k for k in ("sels", "tous")
                                          if k in o.__dict__), "%r", data)
        expect(set(data["one"]) == set(want["one"]) and all(
            x is v for x in data["one"].values()), "%r: %r", v, data)
        if "sels" in data:
            expect(len(data["sels"]) == 2 and all(
                x is v for x in data["sels"]), "%r", data)
        if "tous" in data:
            expect(list(data["tous"]) == ["k"] and
                   data["tous"]["k"] is v, "%r", data)
        if v is None:
            return
        back = VisitorPattern.cast(Odds, data)
        expect(set(back.__dict__) == set(data) and all(
            x is v for x in back.one.__dict__.values()) and
            set(back.one.__dict__) == set(want["one"]), "%r: back %r", v,
            back.one.__dict__)
        ctx.step(2)
    for v in values:
        ctx.state()
        for none, empty in itertools.product((True, False), repeat=2):
            opts = dict(ignore_none=none, ignore_empty_string=empty)
            ctx.run((type(v).__name__, repr(v) if v is not T else "", none,
                     empty), case, v, opts)

    def converted(v, opts):
        """what a conversion gives is judged alike"""
        class P(VisitorPattern):
            @classmethod
            def apply(cls, value, prop, visitor):
                return v
        o = Odds(one=Odd(any=1), sels=[FieldSelector([])])
        data = P.visit(o, **opts)
        gone = dropped(v, opts)
        expect(list(data["one"]) == ([] if gone else ["any"]) and all(
            x is v for x in data["one"].values()), "%r: %r", v, data)
        expect(len(data["sels"]) == (0 if gone else 1) and all(
            x is v for x in data["sels"]), "%r: %r", v, data)
        ctx.step()
    for v in values:
        for none, empty in itertools.product((True, False), repeat=2):
            opts = dict(ignore_none=none, ignore_empty_string=empty)
            ctx.run(("converted", type(v).__name__, repr(v) if v is not T
                     else "", none, empty), converted, v, opts)


def unions(ctx):
    """slots of several types: what is visited is what the declared type has
    which the value is an instance of, also where it is of a subtype"""
    class A(Record):
        n = Property()

    class B(Record):
        m = Property()

    class A2(A):
        m = Property()

    class B2(B):
        n = Property()

    class AL(ListCollection):
        itemtype = A

    class AD(DictCollection):
        itemtype = B

    class BL(ListCollection):
        itemtype = B
        n = Property()

    class AL2(AL):
        n = Property()

    class AD2(AD):
        m = Property()

    class BL2(BL):
        m = Property()
    values = {
        A: [(lambda: A(), {}), (lambda: A(n=1), {"n": 1}),
            (lambda: A2(n=0, m=1), {"n": 0}), (lambda: A2(m=1), {}),
            (lambda: A(n=""), {"n": ""}), (lambda: A2(n=2, m=1), {"n": 2})],
        B: [(lambda: B(), {}), (lambda: B(m=1), {"m": 1}),
            (lambda: B2(m=2, n=1), {"m": 2}), (lambda: B2(n=1), {})],
        AL: [(lambda: AL([]), []), (lambda: AL([A(n=1), A()]), [{"n": 1}, {}]),
             (lambda: AL2(values=[A2(n=1, m=2)], n=3), [{"n": 1}])],
        AD: [(lambda: AD({}), {}), (lambda: AD({"n": B(m=1), "k": B()}),
                                    {"n": {"m": 1}, "k": {}}),
             (lambda: AD2(values={"m": B2(m=1, n=2)}, m=1),
              {"m": {"m": 1}})],
        BL: [(lambda: BL([]), {"values": []}),
             (lambda: BL(values=[B()], n=1), {"values": [{}], "n": 1}),
             (lambda: BL2(values=[B2(n=2)], n=1, m=2),
              {"values": [{}], "n": 1})],
        int: [(lambda: 0, 0), (lambda: 5, 5)],
        str: [(lambda: "", ""), (lambda: "x", "x")],
        list: [(lambda: [], []), (lambda: [1], [1])],
    }

    def scalars(v):
        if isinstance(v, dict):
            return sum(map(scalars, v.values()))
        return sum(map(scalars, v)) if isinstance(v, list) else 1

    made = {}

    def types(Ts):
        if Ts not in made:
            One = type(Record)("Union%d" % len(made), (Record,), dict(
                before=Property(), x=Property(isa=Ts), z=Property(),
                __module__=__name__))
            made[Ts] = One, type(Record)("T" + One.__name__, (Record,), dict(
                one=Property(isa=One), many=ListProperty(of=One),
                __module__=__name__))
        return made[Ts]

    def case(Ts, t, i, none, empty):
        make, want = values[t][i]
        One, Top = types(Ts)
        value = make()
        o = Top(one=One(before=1, x=value), many=[One(x=value, z="z")])
        gone = empty and want == "" and isinstance(want, str)
        if empty and t is A and want == {"n": ""}:
            want = {}
        w = {"before": 1, "x": want}
        v = {"x": want, "z": "z"}
        if gone:
            del w["x"], v["x"]
        n = 1 if not isinstance(want, (list, dict)) or t is list else \
            scalars(values[t][i][1])
        for P in (VisitorPattern, Recorder):
            Recorder.log = []
            data = P.visit(o, ignore_none=none, ignore_empty_string=empty)
            expect(data == {"one": w, "many": [v]}, "%r: %r, not %r", value,
                   data, {"one": w, "many": [v]})
        log = [c for c in Recorder.log if c[0][:2] == ("one", "x")]
        expect(len(log) == n, "%r: converts %r", value, log)
        data = VisitorPattern.visit(o, filter=[["many", None, "x"]],
                                    ignore_none=none,
                                    ignore_empty_string=empty)
        expect(data == {"many": [{} if gone else {"x": want}]},
               "filtered: %r", data)
        ctx.step(3)
    for n in (2, 3):
        for Ts in itertools.permutations(values, n):
            if not any(issubclass(t, Record) for t in Ts):
                continue
            for t in Ts:
                if t is list and (AL in Ts or BL in Ts):
                    continue        # visited as the collection
                for i in range(len(values[t])):
                    ctx.state()
                    for none, empty in ((True, False), (False, True)):
                        ctx.run((tuple(x.__name__ for x in Ts), t.__name__, i,
                                 none, empty), case, Ts, t, i, none, empty)


def tasks_C28(tier):
    tasks = []
    thorough = tier == "thorough"

    def options(ctx, name, i, n):
        ts = objects(name, ctx.thorough)
        sets = [dict(zip(OPTS, c)) for c in itertools.product(
            (False, True), repeat=len(OPTS))]
        for t in chunks(ts, n)[i] if i < len(chunks(ts, n)) else []:
            ctx.state()

            def case():
                o = build(t)
                for opts in sets:
                    ctx.step(check_visit(t, o, **opts))
            ctx.run((name, show(t)), case)
        ctx.bound(objects=len(ts), options=len(sets))
    for name in NAMES:
        n = 4 if name in ("Node", "Holder", "JNode", "KNode", "Nul",
                          "XHolder") else 1
        for i in range(n):
            tasks.append(("options/%s/%d" % (name, i),
                          lambda ctx, name=name, i=i, n=n: options(
                              ctx, name, i, n)))

    def filtered(ctx, name, depth, i, n):
        ts = objects(name, False)
        most = 60 if ctx.thorough else 24
        ts = ts[::max(1, (len(ts) + most - 1) // most)]
        fs = list(filters(name, depth, 3 if ctx.thorough else 2))
        if not ctx.thorough and len(fs) > 400:
            fs = [f for f in fs if len(f) == 1] + fs[::3]
        elif len(fs) > 4000:
            fs = [f for f in fs if len(f) < 3] + fs[::len(fs) // 3000 + 1]
        objs = [build(t) for t in ts]
        for f, paths in enumerate(fs):
            if f % n != i:
                continue
            ctx.state()
            for t, o in zip(ts, objs):
                def case():
                    ctx.step(check_visit(t, o, paths))
                    if len(paths) == 1:
                        for opts in (dict(extraneous=True),
                                     dict(ignore_none=False),
                                     dict(apply_empty_slots=True)):
                            ctx.step(check_visit(t, o, paths, **opts))
                ctx.run((name, paths, show(t)), case)
        ctx.bound(filters=len(fs))
    for name, depth in (("Node", 3), ("KNode", 3), ("Holder", 4),
                        ("NList", 2), ("NDict", 2), ("LeafList", 2),
                        ("LeafMap", 2), ("strList", 1), ("JNode", 3),
                        ("Nul", 2), ("XHolder", 3), ("XList", 1),
                        ("intListMap", 2), ("JHolder", 3)):
        n = 4 if depth > 2 else 1
        for i in range(n):
            tasks.append(("filters/%s/%d" % (name, i),
                          lambda ctx, name=name, depth=depth, i=i, n=n:
                          filtered(ctx, name, depth, i, n)))

    def wrong(ctx):
        """data of the wrong shape, at every place for a record or
        collection"""
        for name in ("Node", "KNode", "Holder", "JNode", "LeafList",
                     "LeafMap", "NList", "NDict", "XHolder", "JHolder"):
            ts = [t for t in objects(name, False) if castable(t, Visit())]
            most = 200 if ctx.thorough else 60
            for t in ts[::max(1, len(ts) // most)]:
                data = VisitorPattern.visit(build(t))
                ctx.state()
                for path, kind, bad in places(t, data, t[1], ()):
                    def case():
                        broken = replaced(data, path, bad)
                        r = attempt(VisitorPattern.cast, TYPES[t[1]], broken)
                        want = exc.VisitorGrokCollectionError if \
                            kind == "coll" else exc.VisitorGrokRecordError
                        expect(r[0] == "exc" and type(r[1]) is want,
                               "%s with %r at %s: %r", show(t), bad, path, r)
                        at = tuple(p for p, q in path if q)
                        sel = tuple(r[1].field_selector.selectors)
                        expect(sel == at, "%s with %r at %s: the error names "
                               "%s", show(t), bad, at, sel)
                        ctx.step()
                    ctx.run((name, show(t), path, repr(bad)), case)
    tasks.append(("wrong shapes", wrong))

    def api(ctx):
        """other ways of saying it"""
        l1 = R("Leaf", a=1)
        t = complete(R("Node", leaf=l1, kids=L("LeafList", [l1]),
                       tags=L("strList", ["x"]), ex="e"))

        def same_filter():
            o = build(t)
            mfs = MultiFieldSelector(["leaf"], ["kids", None, "a"], ["ex"])
            for kw in ({}, {"extraneous": True}):
                two = [VisitorPattern.visit(o, filter=mfs, **kw),
                       VisitorPattern.visit(o, visit_filter=mfs, **kw),
                       VisitorPattern.visit(o, filter=[
                           ["leaf"], ["kids", None, "a"], ["ex"]], **kw)]
                expect(two[0] == two[1] == two[2], "%s", two)
                ctx.step(3)
        ctx.run("filter", same_filter)

        def wrong_types():
            for x in (None, 1, "x", [1], {"a": 1}, object()):
                r = attempt(VisitorPattern.visit, x)
                expect(r[0] == "exc" and isinstance(r[1], TypeError),
                       "visit(%r): %r", x, r)
            for x in ("x", None, 5):
                class T(Record):
                    bad = Property(isa=U.NList)
                o = T()
                o.__dict__["bad"] = x
                r = attempt(VisitorPattern.visit, o)
                ok = x is None and r == ("ok", {}) or \
                    r[0] == "exc" and isinstance(r[1], TypeError)
                expect(ok, "visit() of %r where a collection should be: %r",
                       x, r)
                ctx.step()
        ctx.run("wrong types", wrong_types)

        def failing():
            class Sub(Record):
                boom = LazyProperty(isa=int, default=lambda: int("z"))

            class T(Record):
                sub = Property(isa=Sub)
                subs = ListProperty(of=Sub)
            for o, at in ((Sub(), ()), (T(sub=Sub()), ("sub",)),
                          (T(subs=[Sub()]), ("subs", 0))):
                r = attempt(VisitorPattern.visit, o)
                expect(r[0] == "exc" and
                       isinstance(r[1], exc.VisitorPropError) and
                       tuple(r[1].fs.selectors) == at, "%r", r)
                ctx.step()
        ctx.run("failing default", failing)

        def clash():
            class V(ListCollection):
                itemtype = int
                values_ = Property()
                values = Property()
            v = V([1])
            v.__dict__["values"] = "mine"
            r = attempt(VisitorPattern.visit, v)
            expect(r[0] == "exc" and isinstance(r[1], exc.VisitorTooSimple),
                   "%r", r)
        ctx.run("property called values", clash)

        def stopped():
            class Stop(VisitorPattern):
                @classmethod
                def unpack(cls, value, value_type, visitor):
                    if value_type is U.Leaf:
                        if getattr(value, "a", 0) == 2:
                            return cls.StopVisiting
                        return cls.StopVisiting("leaf")
                    return super(Stop, cls).unpack(value, value_type, visitor)
            for ts in itertools.product(
                    [R("Leaf", a=1), R("Leaf", a=2)], repeat=3):
                o = build(R("Node", leaf=ts[0], kids=L("LeafList", ts[1:]),
                            m=D("LeafMap", zip("pq", ts[1:]))))
                got = Stop.visit(o)
                keep = ["leaf" for x in ts[1:] if x[2]["a"] == 1]
                want = dict(lz="lz", kids=keep, m={
                    k: "leaf" for k, x in zip("pq", ts[1:])
                    if x[2]["a"] == 1})
                if ts[0][2]["a"] == 1:
                    want["leaf"] = "leaf"
                expect(got == want, "%r, not %r", got, want)
                ctx.step()
        ctx.run("stopping", stopped)

        def typed():
            """plain data, visited as a type"""
            data = [{"a": 1}, {"b": "x"}]
            got = attempt(VisitorPattern.visit, data, list_of(int))
            expect(got == ("ok", data), "%r", got)
            got = attempt(VisitorPattern.visit, {"x": 1}, dict_of(int))
            expect(got == ("ok", {"x": 1}), "%r", got)
            ctx.step(2)
        ctx.run("plain data", typed)

        def mapped(ks):
            """a mapping of items, for a list: in the order of its keys"""
            log = []

            class P(VisitorPattern):
                @classmethod
                def reverse(cls, value, prop, visitor):
                    log.append((tuple(visitor.field_selector.selectors),
                                value))
                    return super(P, cls).reverse(value, prop, visitor)
            data = {k: {"a": i} for i, k in enumerate(ks)}
            ranked = [data[k]["a"] for k in sorted(ks)]
            got = P.cast(U.Node, {"kids": data})
            expect([x.a for x in got.kids] == ranked, "%r", got)
            expect(log == [(("kids", i, "a"), v)
                           for i, v in enumerate(ranked)], "%r", log)
            for i, v in enumerate(ranked):
                got = VisitorPattern.cast(U.Node, {"kids": data},
                                          filter=[["kids", i]])
                expect([x.a for x in got.kids] == [v], "item %d: %r", i, got)
                bad = dict(data, **{sorted(ks)[i]: 7})
                r = attempt(VisitorPattern.cast, U.Node, {"kids": bad})
                expect(r[0] == "exc" and isinstance(
                    r[1], exc.VisitorGrokRecordError) and
                    r[1].field_selector.selectors == ["kids", i], "%r", r)
                ctx.step(2)
            ctx.step()
        for n in range(4):
            for ks in itertools.permutations("bca", n):
                ctx.run(("mapping for a list",) + ks, mapped, ks)
                ctx.state()
        ctx.state(6)
    tasks.append(("ways of visiting", api))
    tasks.append(("odd values", odd_values))
    tasks.append(("unions", unions))
    return tasks


def places(t, data, tname, path):
    """every place in visited data for a record or collection"""
    m = Visit()
    is_coll = t[0] != "R"
    shown = m.shown(tname, None)
    bads = [7, "text"]
    for bad in bads:
        if is_coll and not shown and bad == "text":
            continue            # a sequence is as good as any other
        if shown:
            yield path, "record", bad
        elif is_coll:
            yield path, "coll", bad
    if shown and is_coll:
        yield path, "record", []
        yield path + (("values", False),), "coll", 7
        inner = data["values"]
        items = path + (("values", False),)
    else:
        if t[0] == "R":
            yield path, "record", [1]
        inner = data
        items = path
    for s in shown:
        v = t[-1].get(s)
        if is_tree(v):
            yield from places(v, data[s], v[1], path + ((s, True),))
    if is_coll:
        for k, v in (enumerate(t[2]) if t[0] == "L" else t[2].items()):
            if is_tree(v):
                yield from places(v, inner[k], v[1], items + ((k, True),))


def replaced(data, path, bad):
    if not path:
        return bad
    k = path[0][0]
    if isinstance(data, list):
        return [replaced(v, path[1:], bad) if i == k else v
                for i, v in enumerate(data)]
    return {j: replaced(v, path[1:], bad) if j == k else v
            for j, v in data.items()}


# -- C29 ---------------------------------------------------------------------

class Point(Record):
    x = Property(isa=int)
    y = SafeProperty(isa=(int, float))
    note = Property(extraneous=True)


class Points(ListCollection):
    itemtype = Point


class Track(ListCollection):
    itemtype = Point
    label = Property(isa=str)
    secret = Property(isa=int, extraneous=True)


class Atlas(DictCollection):
    itemtype = Track


class Deep(Record):
    p = Property(isa=Point)
    tr = Property(isa=Track)
    at = Property(isa=Atlas)


def rec(name, props=None, item=None):
    rv = {"name": name}
    if props:
        rv["properties"] = props
    if item:
        rv["itemtype"] = item
    return rv


# descriptions: (without, with) extraneous properties, as trees in which
# ("ex", x) is only there when those are asked for
def scalar(*types):
    return ("scalar", types)


POINT = ("rec", "Point", dict(x=scalar("int"), y=("union", ["int", "float"]),
                              note=("ex", scalar())), None)
POINTS = ("rec", "Points", {}, POINT)
TRACK = ("rec", "Track", dict(label=scalar("str"),
                              secret=("ex", scalar("int"))), POINT)
ATLAS = ("rec", "Atlas", {}, TRACK)
DEEP = ("rec", "Deep", dict(p=POINT, tr=TRACK, at=ATLAS), None)


def described(d, ex, filt, name=None):
    """what reflecting should say"""
    m = Model()

    def sub(k):
        return None if filt is None else m.sub(filt, (k,))
    if d[0] == "ex":
        return described(d[1], ex, filt, name)
    if d[0] == "scalar":
        rv = {"name": name}
        if d[1]:
            rv["type"] = d[1][0]
        return rv
    if d[0] == "union":
        return {"name": name, "type": list(d[1])}
    if d[0] == "item":
        return {"name": d[1]}
    props = {}
    for s, x in d[2].items():
        if x[0] == "ex" and not ex:
            continue
        if filt is not None and sub(s) is None:
            continue
        props[s] = described(x, ex, sub(s), s)
    item = None
    if d[3]:
        if filt is not None and sub(None) is None:
            item = {"name": d[3][1]}        # nothing of it is selected
        else:
            item = described(d[3], ex, sub(None))
    return rec(d[1], props, item)


def alphabet():
    """declarations of a property, and what they should be described as"""
    from normalize import (DateProperty, IntProperty, JsonProperty,
                           StringProperty)
    il = ("rec", "intList", {}, ("item", "int"))
    return [
        ("any", lambda **k: Property(**k), scalar()),
        ("int", lambda **k: Property(isa=int, **k), scalar("int")),
        ("def", lambda **k: Property(isa=str, default="x", **k),
         scalar("str")),
        ("req", lambda **k: Property(isa=dict, required=True, **k),
         scalar("dict")),
        ("lazy", lambda **k: LazyProperty(isa=list, default=lambda: 1 / 0,
                                          **k), scalar("list")),
        ("ro", lambda **k: ROProperty(isa=int, **k), scalar("int")),
        ("v1", lambda **k: V1Property(isa=int, v1_none=0, **k),
         scalar("int")),
        ("union", lambda **k: Property(isa=(int, str), **k),
         ("union", ["int", "str"])),
        ("runion", lambda **k: Property(isa=(str, Point), **k), POINT),
        ("point", lambda **k: Property(isa=Point, **k), POINT),
        ("v1pt", lambda **k: Property(isa=Point, v1_none=None, **k), POINT),
        ("points", lambda **k: Property(isa=Points, **k), POINTS),
        ("track", lambda **k: Property(isa=Track, **k), TRACK),
        ("atlas", lambda **k: Property(isa=Atlas, **k), ATLAS),
        ("deep", lambda **k: Property(isa=Deep, **k), DEEP),
        ("ints", lambda **k: ListProperty(of=int, **k), il),
        ("dpts", lambda **k: DictProperty(of=Points, **k),
         ("rec", "PointsMap", {}, POINTS)),
        ("lol", lambda **k: ListProperty(of=list_of(int), **k),
         ("rec", "intListList", {}, il)),
        ("json", lambda **k: JsonProperty(isa=Point, json_name="J", **k),
         POINT),
        ("pint", lambda **k: IntProperty(**k), None),
        ("pstr", lambda **k: StringProperty(**k), None),
        ("pdate", lambda **k: DateProperty(**k), None),
    ]


def reflected(x):
    """with the names of the predefined properties' types as they are"""
    return x


def tasks_C29(tier):
    tasks = []
    thorough = tier == "thorough"
    al = alphabet()

    def types(ctx, i, n):
        combos = []
        opts = [(j, e) for j in range(len(al)) for e in (False, True)]
        for k in range(0, 3):
            combos.extend(itertools.combinations(opts, k))
        if ctx.thorough:
            combos.extend(itertools.combinations(opts, 3))
        for c, combo in enumerate(combos):
            if c % n != i or len({j for j, e in combo}) < len(combo):
                continue
            for base in (Record, JsonRecord, JsonRecordList, ListCollection,
                         DictCollection):
                if len(combo) > 1 and base in (JsonRecord, JsonRecordList) \
                        and not ctx.thorough and c % 5:
                    continue
                ctx.state()

                def case():
                    ns, want = {}, {}
                    for j, e in combo:
                        name, make, d = al[j]
                        p = make(extraneous=True) if e else make()
                        ns[name] = p
                        if d is None:
                            d = scalar(p.valuetype.__name__) if not \
                                isinstance(p.valuetype, tuple) else \
                                ("union", [t.__name__ for t in p.valuetype])
                        want[name] = ("ex", d) if e else d
                    item = None
                    if base is JsonRecordList or base is DictCollection:
                        ns["itemtype"] = Point
                        item = POINT
                    elif base is ListCollection:
                        ns["itemtype"] = str
                        item = ("item", "str")
                    if base in (JsonRecord, JsonRecordList):
                        want["unknown_json_keys"] = ("ex", None)
                    T = type(base)("T", (base,), ns)
                    check_reflect(ctx, T, want, item)
                ctx.run((base.__name__, combo), case)
        ctx.bound(combinations=len(combos))
    n = 8
    for i in range(n):
        tasks.append(("types/%d" % i, lambda ctx, i=i: types(ctx, i, n)))

    def filtered(ctx):
        known = dict(Deep=DEEP, Track=TRACK, Atlas=ATLAS, Points=POINTS,
                     Point=POINT)
        T = dict(Deep=Deep, Track=Track, Atlas=Atlas, Points=Points,
                 Point=Point)
        for name in sorted(known):
            paths = sorted(set(paths_of(known[name])), key=repr)
            for ps in subsets(paths, 4 if ctx.thorough else 3):
                if not ps:
                    continue
                ctx.state()
                for ex in (False, True):
                    def case():
                        mfs = MultiFieldSelector(*[list(p) for p in ps])
                        got = VisitorPattern.reflect(
                            T[name], filter=mfs, extraneous=ex)
                        want = described(known[name], ex, frozenset(ps))
                        expect(got == want, "%s with filter %s, "
                               "extraneous=%s: %r, not %r", name, mfs, ex,
                               got, want)
                        ctx.step()
                    ctx.run((name, ps, ex), case)
    tasks.append(("filters", filtered))

    def instances(ctx):
        """what an instance holds does not matter, nor is it changed"""
        for name in NAMES:
            T = TYPES[name]
            want = [VisitorPattern.reflect(T, extraneous=e)
                    for e in (False, True)]
            for t in objects(name, ctx.thorough):
                ctx.state()

                def case():
                    o = build(t)
                    for e in (False, True):
                        got = VisitorPattern.reflect(o, extraneous=e)
                        expect(got == want[e], "%s: %r; the type: %r",
                               show(t), got, want[e])
                    now = U.observe(o)
                    expect(U.same(now, t), "%s changed to %s", show(t),
                           show(now))
                    ctx.step(2)
                ctx.run((name, show(t)), case)
            ctx.run(("again", name), lambda: expect(
                want == [VisitorPattern.reflect(T, extraneous=e)
                         for e in (False, True)], "%s", name))
    tasks.append(("instances", instances))

    def other(ctx):
        for x in (1, "x", int, object, None, [1], dict):
            def case():
                r = attempt(VisitorPattern.reflect, x)
                expect(r[0] == "exc" and isinstance(r[1], TypeError),
                       "reflect(%r): %r", x, r)
                ctx.step()
            ctx.run(repr(x), case)
            ctx.state()

        def custom():
            seen = []

            class Info(VisitorPattern):
                @classmethod
                def propinfo(cls, value, prop, visitor):
                    seen.append(prop and prop.name)
                    return prop.name if prop else "item:" + value.__name__

                @classmethod
                def typeinfo(cls, props, param, value_type, visitor):
                    return (value_type.__name__, sorted(
                        (p.name, i) for p, i in props), param)
            got = Info.reflect(Deep, extraneous=True)
            pt = ("Point", [("note", "note"), ("x", "x"), ("y", "y")], None)
            tr = ("Track", [("label", "label"), ("secret", "secret")], pt)
            want = ("Deep", [("at", ("Atlas", [], tr)), ("p", pt),
                             ("tr", tr)], None)
            expect(got == want, "%r", got)
            expect(len(seen) == 3 * 3 + 2 * 2, "%r", seen)
            ctx.step()
        ctx.run("custom", custom)
    tasks.append(("others", other))
    return tasks


def paths_of(d, path=()):
    if d[0] == "ex":
        yield from paths_of(d[1], path)
        return
    if path:
        yield path
    if d[0] != "rec":
        return
    if d[3] and not d[2]:
        yield from paths_of(d[3], path + (None,))
    for s, x in d[2].items():
        yield from paths_of(x, path + (s,))


def check_reflect(ctx, T, want, item):
    for ex in (False, True):
        got = VisitorPattern.reflect(T, extraneous=ex)
        w = dict(want)
        if ex and "unknown_json_keys" in w:
            del w["unknown_json_keys"]
            extra = got.get("properties", {}).pop("unknown_json_keys", None)
            expect(extra is not None and extra["name"] ==
                   "unknown_json_keys", "no unknown_json_keys: %r", got)
            if not got["properties"]:
                del got["properties"]
        wanted = described(("rec", "T", w, item), ex, None)
        expect(got == wanted, "extraneous=%s: %r, not %r", ex, got, wanted)
        ctx.step()
