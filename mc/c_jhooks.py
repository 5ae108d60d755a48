"""C35: types with JSON conversions of their own, at every place."""
import itertools

from normalize import (
    AutoJsonRecord, DictCollection, DictProperty, JsonDictProperty,
    JsonListProperty, JsonProperty, JsonRecord,
    JsonRecordList, ListCollection, ListProperty, Property, Record,
    from_json, to_json,
)
from normalize.coll import dict_of, list_of
from normalize.record.json import JsonRecordDict

from .core import attempt, expect, fail


class Log(object):
    """what was called; shared by all of the types, emptied by each case"""
    calls = []


UNSAID = "not passed"


def said(o, extraneous=UNSAID):
    Log.calls.append((o, extraneous))
    return {"said": o.word}


class Word(object):
    word = "w"

    def __init__(self, word="w"):
        self.word = word

    def __hash__(self):
        return 7


# -- out: every way of defining json_data ------------------------------------

class OnlySelf(Word):
    def json_data(self):
        return said(self)


class Positional(Word):
    def json_data(self, extraneous):
        return said(self, extraneous)


class Default(Word):
    def json_data(self, extraneous=False):
        return said(self, extraneous)


class Keyword(Word):
    def json_data(self, *, extraneous=False):
        return said(self, extraneous)


class OtherKeyword(Word):
    def json_data(self, *, other=1):
        expect(other == 1, "passed something else")
        return said(self)


class BothKeywords(Word):
    def json_data(self, *, other=1, extraneous=None):
        expect(other == 1, "passed something else")
        return said(self, extraneous)


class OtherDefault(Word):
    def json_data(self, other=1):
        expect(other == 1, "passed something else: %r", other)
        return said(self)


class Second(Word):
    def json_data(self, other=1, extraneous=None):
        expect(other == 1, "passed something else: %r", other)
        return said(self, extraneous)


class Inherited(Default):
    pass


class Overridden(Default):
    def json_data(self):
        return said(self)


class Extended(OnlySelf):
    def json_data(self, extraneous=False):
        super(Extended, self).json_data()
        Log.calls.pop()
        return said(self, extraneous)


class TextWord(str):
    @property
    def word(self):
        return str(self)

    def json_data(self, extraneous=False):
        return said(self, extraneous)


class NumberWord(int):
    word = "number"

    def json_data(self):
        return said(self)


class ListWord(list):
    word = "list"

    def json_data(self, extraneous=False):
        return said(self, extraneous)

    def __hash__(self):
        return 8


class DictWord(dict):
    word = "dict"

    def json_data(self):
        return said(self)


class RecordWord(Record):
    word = Property(isa=str)
    ex = Property(extraneous=True)

    def json_data(self, extraneous=False):
        return said(self, extraneous)


class RecordWord0(Record):
    word = Property(isa=str)

    def json_data(self):
        return said(self)


class JsonWord(JsonRecord):
    word = Property(isa=str)

    def json_data(self, extraneous=False):
        return said(self, extraneous)


class JsonWord0(JsonRecord):
    word = Property(isa=str)

    def json_data(self):
        return said(self)


class CollWord(ListCollection):
    itemtype = str
    word = Property(isa=str)

    def json_data(self, extraneous=False):
        return said(self, extraneous)


class JCollWord(JsonRecordDict):
    itemtype = str
    word = Property(isa=str)

    def json_data(self):
        return said(self)


class Quiet(Record):
    """has no json_data of its own"""
    word = Property(isa=str)
    ex = Property(extraneous=True)


class JQuiet(JsonRecord):
    word = Property(isa=str, json_name="W")
    ex = Property(extraneous=True)


MUTE = (Quiet, JQuiet)
TAKES = {  # -> what it is told about extraneous properties
    c: True for c in (Positional, Default, Keyword, BothKeywords, Second,
                      Inherited, Extended, TextWord, ListWord, RecordWord,
                      JsonWord, CollWord)}
SPEAKERS = [
    lambda: OnlySelf(), lambda: Positional(), lambda: Default(),
    lambda: Keyword(), lambda: OtherKeyword(), lambda: BothKeywords(),
    lambda: OtherDefault(), lambda: Second(), lambda: Inherited(),
    lambda: Overridden(), lambda: Extended(), lambda: TextWord("t"),
    lambda: NumberWord(3), lambda: ListWord([1]), lambda: DictWord(a=1),
    lambda: RecordWord(word="r", ex=1), lambda: RecordWord0(word="r"),
    lambda: JsonWord(word="j"), lambda: JsonWord0(word="j"),
    lambda: CollWord(["x"], word="c"), lambda: JCollWord(
        values={"k": "x"}, word="c"),
    lambda: Quiet(word="q", ex=1), lambda: JQuiet(word="q", ex=1),
]
HASHABLE = [i for i, m in enumerate(SPEAKERS)
            if attempt(hash, m())[0] == "ok"]


def form(o, extraneous, calls):
    """the JSON form of one of them, below another object"""
    if type(o) in MUTE:
        rv = {"W" if type(o) is JQuiet else "word": o.word}
        if extraneous:
            rv["ex"] = o.ex
        return rv
    calls.append((o, extraneous if type(o) in TAKES else UNSAID))
    return {"said": o.word}


# holders: a type, how to make one with an object in it, and the place of the
# object in the JSON data
class Any(Record):
    x = Property()
    y = Property(extraneous=True)
    z = Property(json_name="Z")


class JAny(JsonRecord):
    x = Property()
    y = Property(extraneous=True)
    z = Property(json_name="Z")
    no = Property(json_name=None)


class Typed(object):
    """holders with a property declared with the type"""
    cache = {}

    @classmethod
    def get(cls, T, kind):
        if (T, kind) not in cls.cache:
            if kind == "isa":
                attrs = dict(x=Property(isa=T))
            elif kind == "list":
                attrs = dict(x=ListProperty(of=T))
            elif kind == "dict":
                attrs = dict(x=DictProperty(of=T))
            elif kind == "jlist":
                attrs = dict(x=JsonListProperty(of=T))
            elif kind == "jdict":
                attrs = dict(x=JsonDictProperty(of=T))
            elif kind == "ll":
                attrs = dict(x=ListProperty(of=list_of(T)))
            elif kind == "dl":
                attrs = dict(x=DictProperty(of=list_of(T)))
            base = JsonRecord if kind[0] == "j" else Record
            cls.cache[T, kind] = type("H", (base,), attrs)
        return cls.cache[T, kind]


def holders(T):
    """-> name, make(o), shape(form, extraneous)"""
    yield "slot", lambda o: Any(x=o), lambda f, e: {"x": f}
    yield "renamed", lambda o: Any(z=o), lambda f, e: {"Z": f}
    yield "extraneous", lambda o: Any(y=o), \
        lambda f, e: {"y": f} if e else {}
    yield "jslot", lambda o: JAny(x=o), lambda f, e: {"x": f}
    yield "jrenamed", lambda o: JAny(z=o), lambda f, e: {"Z": f}
    yield "jextraneous", lambda o: JAny(y=o), \
        lambda f, e: {"y": f} if e else {}
    yield "none", lambda o: JAny(no=o), lambda f, e: {}
    yield "in list", lambda o: Any(x=[1, o]), lambda f, e: {"x": [1, f]}
    yield "in tuple", lambda o: JAny(x=(o, 1)), lambda f, e: {"x": [f, 1]}
    yield "in dict", lambda o: Any(x={"k": o}), lambda f, e: {"x": {"k": f}}
    yield "deep", lambda o: Any(x=[{"k": [o]}]), \
        lambda f, e: {"x": [{"k": [f]}]}
    if issubclass(T, object) and attempt(lambda: hash(T()))[0] == "ok":
        yield "in set", lambda o: Any(x={o}), lambda f, e: {"x": [f]}
    yield "below", lambda o: Any(x=JAny(x=o)), lambda f, e: {"x": {"x": f}}
    yield "below j", lambda o: JAny(x=Any(x=o)), \
        lambda f, e: {"x": {"x": f}}
    yield "below ex", lambda o: JAny(x=Any(y=o)), \
        lambda f, e: {"x": {"y": f} if e else {}}
    yield "auto", lambda o: auto(o), lambda f, e: {"x": f}
    yield "auto list", lambda o: auto([o]), lambda f, e: {"x": [f]}
    for kind, wrap, shape in (
        ("isa", lambda o: o, lambda f: f),
        ("list", lambda o: [o], lambda f: [f]),
        ("dict", lambda o: {"k": o}, lambda f: {"k": f}),
        ("jlist", lambda o: [o], lambda f: [f]),
        ("jdict", lambda o: {"k": o}, lambda f: {"k": f}),
        ("ll", lambda o: [[o]], lambda f: [[f]]),
        ("dl", lambda o: {"k": [o]}, lambda f: {"k": [f]}),
    ):
        yield kind, (lambda o, kind=kind, wrap=wrap: Typed.get(T, kind)(
            x=wrap(o))), (lambda f, e, shape=shape: {"x": shape(f)})
    yield "list_of", lambda o: list_of(T)([o]), lambda f, e: [f]
    yield "dict_of", lambda o: dict_of(T)({"k": o}), lambda f, e: {"k": f}


def auto(o):
    a = AutoJsonRecord()
    a.x = o
    return a


class Out(Record):
    x = Property(json_out=lambda v: ["out", v.word])
    l = ListProperty(of=object, json_out=lambda v: ["outs", len(v)])


def outward(ctx, first):
    for i, make in enumerate(SPEAKERS):
        T = type(make())

        def case(name, hold, shape, e):
            o = make()
            root = hold(o)
            ways = [lambda: to_json(root, e)]
            if isinstance(root, JsonRecord):
                ways.append(lambda: root.json_data(extraneous=e))
            if not e:
                if isinstance(root, JsonRecord):
                    ways.append(lambda: root.json_data())
            else:
                ways.append(lambda: to_json(root))
                ways.append(lambda: to_json(root, extraneous=True))
            for way in ways * 2:
                calls = []
                want = shape(form(o, e, calls), e)
                if name in ("extraneous", "jextraneous", "below ex") and \
                        not e or name == "none":
                    calls = []
                Log.calls = []
                got = attempt(way)
                expect(got == ("ok", want), "%s with extraneous=%s: %r, "
                       "expected %r", name, e, got[1], want)
                expect(len(Log.calls) == len(calls) and all(
                    a[0] is b[0] and a[1] is b[1] for a, b in zip(
                        Log.calls, calls)),
                    "%s with extraneous=%s: calls %r, expected %r", name, e,
                    Log.calls, calls)
                ctx.step()
        for name, hold, shape in holders(T):
            for e in first:
                ctx.state()
                ctx.run((T.__name__, name, e), case, name, hold, shape, e)

        def own(e):
            """a property's own function comes first"""
            o = make()
            Log.calls = []
            got = attempt(to_json, Out(x=o, l=[o, o]), e)
            expect(got == ("ok", {"x": ["out", o.word], "l": ["outs", 2]}),
                   "%r", got[1])
            expect(Log.calls == [], "%r", Log.calls)
            expect(to_json(Out(x=o), e, prop="x") == ["out", o.word],
                   "one property gives something else")
            Log.calls = []
            calls = []
            want = form(o, e, calls)
            got = to_json(Any(x=o), e, prop="x")
            expect(got == want and Log.calls == calls, "one property: %r, "
                   "expected %r; calls %r", got, want, Log.calls)
            ctx.step(3)
        for e in first:
            ctx.run((T.__name__, "json_out", e), own, e)


def together(ctx):
    """objects of several types in one object, in every order"""
    pool = list(range(len(SPEAKERS)))

    def case(idx, e):
        objs = [SPEAKERS[i]() for i in idx]
        root = Any(x=list(objs), z=JAny(x={str(n): o for n, o in
                                           enumerate(objs)}))
        calls = []
        want = {"x": [form(o, e, calls) for o in objs],
                "Z": {"x": {str(n): form(o, e, calls)
                            for n, o in enumerate(objs)}}}
        Log.calls = []
        got = attempt(to_json, root, e)
        expect(got == ("ok", want), "%r, expected %r", got[1], want)
        expect(len(calls) == len(Log.calls) and all(
            any(a[0] is b[0] and a[1] is b[1] for b in calls)
            for a in Log.calls), "calls %r, expected %r", Log.calls, calls)
        ctx.step()
    for n in (2, 3):
        for idx in itertools.permutations(pool, n):
            if n == 3 and not ctx.thorough and (sum(idx) * 7 + idx[0]) % 20:
                continue
            for e in (False, True):
                ctx.state()
                ctx.run((idx, e), case, idx, e)


# -- in: types with conversions of their own ---------------------------------

class Pt(object):
    def __init__(self, made, how="init"):
        self.made, self.how = made, how

    @classmethod
    def from_json(cls, data):
        Log.calls.append(data)
        return cls(data, "json")


class RPt(Record):
    made = Property()
    how = Property()

    @classmethod
    def from_json(cls, data):
        Log.calls.append(data)
        return cls(made=data, how="json")


class JPt(JsonRecord):
    made = Property()
    how = Property()

    @classmethod
    def from_json(cls, data):
        Log.calls.append(data)
        return cls(made=data, how="json")


class SubPt(JPt):
    pass


class KPt(JsonRecord):
    made = Property()
    how = Property()

    @classmethod
    def json_to_initkwargs(cls, data, kwargs):
        Log.calls.append(data)
        return dict(kwargs, made=data, how="json")


class SKPt(KPt):
    @classmethod
    def json_to_initkwargs(cls, data, kwargs):
        kw = super(SKPt, cls).json_to_initkwargs(data, kwargs)
        return kw


READERS = (Pt, RPt, JPt, SubPt, KPt, SKPt)
DATA = [{"a": 1}, {}, {"made": 5}, {"how": {"made": 1}}, [1, 2], [], "text",
        7, 0, True]


def ways_in(T):
    """-> name, the holder, document(data), read(holder) -> objects"""
    kinds = ["isa", "jlist", "jdict"]
    if issubclass(T, Record):
        kinds += ["list", "dict", "ll", "dl"]
    for kind in kinds:
        for base in ("Record", "JsonRecord"):
            for json_name in (None, "X"):
                key = (T, kind, base, json_name)
                if key not in Typed.cache:
                    kw = {} if json_name is None else {"json_name": json_name}
                    p = {"isa": lambda: Property(isa=T, **kw),
                         "list": lambda: ListProperty(of=T, **kw),
                         "dict": lambda: DictProperty(of=T, **kw),
                         "jlist": lambda: JsonListProperty(of=T, **kw),
                         "jdict": lambda: JsonDictProperty(of=T, **kw),
                         "ll": lambda: ListProperty(of=list_of(T), **kw),
                         "dl": lambda: DictProperty(of=list_of(T), **kw),
                         }[kind]()
                    Typed.cache[key] = type("H", (
                        Record if base == "Record" else JsonRecord,),
                        dict(x=p))
                yield (kind, base, json_name), Typed.cache[key]


def wrap(kind, values):
    if kind == "isa":
        return values[0]
    if kind in ("list", "jlist"):
        return list(values)
    if kind in ("dict", "jdict"):
        return {"k%d" % i: v for i, v in enumerate(values)}
    if kind == "ll":
        return [[v] for v in values]
    return {"k%d" % i: [v] for i, v in enumerate(values)}


def unwrap(kind, x):
    if kind == "isa":
        return [x]
    if kind in ("list", "jlist"):
        return list(x)
    if kind in ("dict", "jdict"):
        return [v for k, v in sorted(x.items())]
    if kind == "ll":
        return [v[0] for v in x]
    return [v[0] for k, v in sorted(x.items())]


def inward(T):
    def run(ctx):
        texty = T in (KPt, SKPt)    # text is parsed before it gets there

        def case(kind, H, json_name, values):
            doc = {json_name or "x": wrap(kind, values)}
            ways = [lambda: from_json(H, doc)]
            if issubclass(H, JsonRecord):
                ways += [lambda: H(doc), lambda: H.from_json(doc)]
            for way in ways:
                Log.calls = []
                r = attempt(way)
                expect(r[0] == "ok", "%r: %r", doc, r[1])
                got = unwrap(kind, r[1].x)
                expect(all(type(g) is T for g in got), "%r", got)
                expect([(g.made, g.how) for g in got] ==
                       [(v, "json") for v in values], "%r read as %r", doc,
                       [(g.made, g.how) for g in got])
                expect(sorted(Log.calls, key=repr) ==
                       sorted(values, key=repr), "%r: conversions of %r",
                       doc, Log.calls)
                ctx.step()

        def made(kind, H, json_name, ready, other):
            """objects which have been converted already"""
            objs = [ready, other]
            if kind == "isa":
                objs = [ready]
            doc = {json_name or "x": wrap(kind, objs)}
            Log.calls = []
            r = attempt(from_json, H, doc)
            expect(r[0] == "ok", "%r: %r", doc, r[1])
            got = unwrap(kind, r[1].x)
            expect(got[0] is ready, "%r: an object was replaced by %r", doc,
                   got[0])
            want = [v for v in objs if not isinstance(v, T)]
            expect(Log.calls == want, "%r: conversions of %r", doc,
                   Log.calls)
            ctx.step()
        for (kind, base, json_name), H in ways_in(T):
            data = [d for d in DATA if not (texty and isinstance(d, str))]
            for d in data:
                ctx.state()
                ctx.run((kind, base, json_name, d), case, kind, H,
                        json_name, [d])
            if kind != "isa":
                for d, e in itertools.product(data, repeat=2):
                    ctx.run((kind, base, json_name, d, e), case, kind, H,
                            json_name, [d, e])
            ready = T(made=1, how="ready")
            for d in data[:3]:
                ctx.run((kind, base, json_name, "ready", d), made, kind, H,
                        json_name, ready, d)

        def with_json_in():
            class H(Record):
                x = Property(isa=T, json_in=lambda v: {"in": v})
                y = Property(isa=T, json_in=lambda v: T(made=v, how="in"))
            for d in DATA:
                Log.calls = []
                h = from_json(H, {"x": d, "y": d})
                expect((h.x.made, h.x.how) == ({"in": d}, "json"), "%r",
                       h.x.made)
                expect((h.y.made, h.y.how) == (d, "in"), "%r", h.y.made)
                expect(Log.calls == [{"in": d}], "%r", Log.calls)
                ctx.step()
        ctx.run("json_in", with_json_in)
    return run


def tasks_C35(tier):
    tasks = [("out", lambda ctx: outward(ctx, (True, False))),
             ("out other order", lambda ctx: outward(ctx, (False, True))),
             ("out together", together)]
    for T in READERS:
        tasks.append(("in/" + T.__name__, inward(T)))
    return tasks
