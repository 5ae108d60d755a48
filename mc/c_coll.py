"""C09 typed lists, C10 typed dictionaries: every operation from every small
contents, and every short sequence of operations, against a Python list/dict
that receives the coerced items."""
import collections
import itertools

import normalize.exc as exc
from normalize import (
    DictCollection, DictProperty, JsonDictProperty, JsonListProperty,
    JsonProperty, JsonRecord, ListCollection, ListProperty, Property, Record,
)
from normalize.coll import dict_of, list_of
from normalize.record.json import JsonRecordDict, JsonRecordList
from normalize.subtype import subtype

from .core import attempt, expect, fail


class MyInt(int):
    pass


class Rec(Record):
    n = Property(isa=int)
    s = Property()

    def __lt__(self, other):
        return self.n < other.n


class SubRec(Rec):
    extra = Property()


class KeyRec(Record):
    primary_key = [Property(isa=int)]
    id = primary_key[0]
    v = Property()


class JRec(JsonRecord):
    n = Property(isa=int, json_name="N")


class Unprintable(object):
    def __str__(self):
        raise ValueError("no text")
    __repr__ = object.__repr__


class Plain(object):
    """neither iterable nor a value of anything"""


Even = subtype("Even", of=int, where=lambda v: v % 2 == 0,
               coerce=lambda v: int(v) * 2)


class Pending(object):
    """a coerced item: the model knows its value but not its identity"""
    def __init__(self, value):
        self.value = value


class Bad(Exception):
    pass


class ItemWorld(object):
    """good: {key: object}; coer: {key: (raw, expected)}; bad: {key: raw}"""
    def __init__(self, itype, good, coer, bad, sortable=True):
        self.itype = itype
        self.good = good
        self.coer = coer
        self.bad = bad
        self.sortable = sortable
        self.raw = dict(good)
        self.raw.update({k: r for k, (r, _) in coer.items()})
        self.raw.update(bad)

    def ingoing(self, k):
        if k in self.good:
            return self.good[k]
        if k in self.coer:
            return Pending(self.coer[k][1])
        raise Bad()

    def has_bad(self, op):
        return any(
            isinstance(p, str) and p in self.bad or
            isinstance(p, tuple) and any(x in self.bad for x in p)
            for p in op[1:])

    def check_new(self, real, want, what):
        expect(isinstance(real, self.itype), "%s: an item is %r, not of the "
               "item type", what, real)
        expect(type(real) is type(want) and real == want,
               "%s: an item is %r, expected %r", what, real, want)


def big():
    return int("1234567890123")


def worlds():
    b1, b2 = big(), big()
    r1, r2, r3 = Rec(n=1), Rec(n=1), Rec(n=2)
    ints = list_of(int)
    n1, n2 = ints([1]), ints([])
    k1, k2 = KeyRec(id=1, v="x"), KeyRec(id=1, v="y")
    w = {
        "int": ItemWorld(
            int, {"a": b1, "b": b2, "t": True, "m": MyInt(-3)},
            {"x": ("5", 5), "y": (2.5, 2)}, {"z": "q", "none": None}),
        "str": ItemWorld(
            str, {"a": "".join(["ab", "cd"]), "b": "".join(["ab", "cd"]),
                  "e": ""},
            {"x": (5, "5"), "y": (None, "None")}, {"z": Unprintable()}),
        "rec": ItemWorld(
            Rec, {"a": r1, "b": r2, "c": r3, "s": SubRec(n=1)},
            {"x": ({"n": "7"}, Rec(n=7)), "y": ({}, Rec())},
            {"z": {"zz": 1}, "w": {"n": "q"}, "i": 5}),
        "jrec": ItemWorld(
            JRec, {"a": JRec(n=1), "b": JRec(n=1), "c": JRec(n=2)},
            {"x": ({"N": "7"}, JRec(n=7)), "y": ({"u": 1},
                                                 JRec({"u": 1}))},
            {"z": {"N": "q"}, "i": 5}, sortable=False),
        "keyrec": ItemWorld(
            KeyRec, {"a": k1, "b": k2}, {"x": ({"id": "3"}, KeyRec(id=3))},
            {"z": {"id": "q"}}, sortable=False),
        "list": ItemWorld(
            ints, {"a": n1, "b": n2, "c": ints([1])},
            {"x": (["4"], ints([4])), "y": (None, ints([])),
             "yy": (["5", 6], ints([5, 6]))},
            {"z": ["q"], "s": "12", "i": 5}, sortable=False),
        "even": ItemWorld(
            Even, {"a": b1 + 1, "b": b2 + 1, "c": 2},
            {"x": (3, 6), "y": ("5", 10)}, {"z": "q", "none": None}),
    }
    return w


def hex_coerce(v):
    return int(v, 16)


def custom_world():
    return ItemWorld(int, {"a": big(), "b": 16, "c": True},
                     {"x": ("ff", 255)}, {"z": "g", "f": 2.5})


class HexList(ListCollection):
    itemtype = int
    coerceitem = staticmethod(hex_coerce)


class HexDict(DictCollection):
    itemtype = int
    coerceitem = staticmethod(hex_coerce)


class NamedList(ListCollection):
    itemtype = int
    name = Property()
    size = Property(isa=int, default=3)


class NamedSub(NamedList):
    other = Property()


class NamedDict(DictCollection):
    itemtype = Rec
    name = Property(default="nm")


class JList(JsonRecordList):
    itemtype = JRec
    title = JsonProperty(json_name="t")


class JDict(JsonRecordDict):
    itemtype = JRec
    title = JsonProperty(json_name="t")


class Owner(Record):
    li = ListProperty(of=int)
    lr = ListProperty(of=Rec)
    di = DictProperty(of=int)
    dr = DictProperty(of=Rec)
    lj = JsonListProperty(of=JRec)
    dj = JsonDictProperty(of=JRec)
    hl = ListProperty(of=int, coll=HexList)


def owned(name):
    def make(values):
        o = Owner(**{name: values})
        return getattr(o, name)
    return make


def assigned(name):
    def make(values):
        o = Owner()
        setattr(o, name, values)
        return getattr(o, name)
    return make


def json_list(v):
    # JSON data, or values= for anything else
    if v is None or isinstance(v, (list, tuple, str)):
        return JList(v, title="T")
    return JList(values=v, title="T")


def json_dict(v):
    if v is None or isinstance(v, (dict, str)):
        return JDict(v, title="T")
    return JDict(values=v, title="T")


def list_makers():
    w = worlds()
    lists = {
        "int": (list_of(int), w["int"], None),
        "str": (list_of(str), w["str"], None),
        "rec": (list_of(Rec), w["rec"], None),
        "keyrec": (list_of(KeyRec), w["keyrec"], None),
        "list": (list_of(list_of(int)), w["list"], None),
        "even": (list_of(Even), w["even"], None),
        "hex": (HexList, custom_world(), None),
        "named": (lambda v: NamedList(v, name="N"), w["int"],
                  dict(name="N", size=3)),
        "namedsub": (lambda v: NamedSub(values=v, other=1), w["int"],
                     dict(other=1, size=3)),
        "json": (json_list, w["jrec"], dict(title="T")),
        "prop-int": (owned("li"), w["int"], None),
        "prop-rec": (owned("lr"), w["rec"], None),
        "prop-json": (owned("lj"), w["jrec"], None),
        "prop-hex": (assigned("hl"), custom_world(), None),
        "set-rec": (assigned("lr"), w["rec"], None),
    }
    return lists


def dict_makers():
    w = worlds()
    return {
        "int": (dict_of(int), w["int"], None),
        "str": (dict_of(str), w["str"], None),
        "rec": (dict_of(Rec), w["rec"], None),
        "list": (dict_of(list_of(int)), w["list"], None),
        "even": (dict_of(Even), w["even"], None),
        "hex": (HexDict, custom_world(), None),
        "named": (lambda v: NamedDict(v), w["rec"], dict(name="nm")),
        "json": (json_dict, w["jrec"], dict(title="T")),
        "prop-int": (owned("di"), w["int"], None),
        "prop-rec": (owned("dr"), w["rec"], None),
        "prop-json": (owned("dj"), w["jrec"], None),
        "set-rec": (assigned("dr"), w["rec"], None),
    }


# -- sources an iterable argument can come from ------------------------------

class Getitem(object):
    """an old style sequence"""
    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]

    def __len__(self):
        return len(self.items)


class OnlyNext(object):
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


ITERABLES = {
    "list": list, "tuple": tuple, "iter": iter,
    "gen": lambda s: (x for x in s), "deque": collections.deque,
    "values": lambda s: dict(enumerate(s)).values(),
    "next": OnlyNext,
}


# -- C09 ---------------------------------------------------------------------

class ListRun(object):
    """a typed list and its model"""
    def __init__(self, make, w, props, contents):
        self.w = w
        self.model = [w.good[k] for k in contents]
        self.real = make(list(self.model))
        self.props = props
        self.check("from %r" % (contents,))

    def sync(self, what):
        real = [x for x in self.real]
        expect(len(real) == len(self.model) == len(self.real),
               "%s: holds %r, expected %r", what, real, self.show())
        for i, (r, m) in enumerate(zip(real, self.model)):
            if isinstance(m, Pending):
                self.w.check_new(r, m.value, what)
                self.model[i] = r
            else:
                expect(r is m, "%s: item %d is %r, expected the very object "
                       "%r (all: %r)", what, i, r, m, self.show())

    def show(self):
        return [m.value if isinstance(m, Pending) else m for m in self.model]

    def check(self, what):
        self.sync(what)
        real, model = self.real, self.model
        n = len(model)
        expect(len(real) == n, "%s: len %r", what, len(real))
        expect(bool(real) is bool(model), "%s: truth", what)
        for i in range(-n, n):
            expect(real[i] is model[i], "%s: [%d] is %r", what, i, real[i])
        expect([(i, x) for i, x in real.itertuples()] ==
               list(enumerate(model)), "%s: itertuples", what)
        expect(isinstance(real, ListCollection), "%s: type", what)
        if self.props is not None:
            for k, v in self.props.items():
                expect(getattr(real, k) == v, "%s: property %s is now %r",
                       what, k, getattr(real, k))

    def apply(self, op, what=None):
        what = what or repr(op)
        kind = op[0]
        model = list(self.model)
        try:
            want = ("ok", self.model_op(model, op))
        except Bad:
            want = ("bad", None)
        except Exception as e:
            want = ("exc", e)
        before = list(self.model)
        real = attempt(self.real_op, op)
        if want[0] == "ok":
            expect(real[0] == "ok", "%s on %r: refused with %r", what,
                   before, real[1])
            self.model = model
            self.compare_result(real[1], want[1], kind, what, before)
        elif want[0] == "bad":
            expect(real[0] == "exc", "%s on %r: accepted", what, before)
            expect(isinstance(real[1], (TypeError, IndexError, ValueError))
                   and (isinstance(real[1], exc.NormalizeError)
                        or isinstance(real[1], (IndexError, ValueError))),
                   "%s: refused with %r", what, real[1])
        else:
            expect(real[0] == "exc", "%s on %r: gave %r, a list raises %r",
                   what, before, real[1], want[1])
            base = next(c for c in (IndexError, ValueError, TypeError,
                                    AttributeError, Exception)
                        if isinstance(want[1], c))
            if self.w.has_bad(op):
                # there are two reasons to refuse it
                base = (base, TypeError)
            expect(isinstance(real[1], base), "%s on %r: raised %r, a list "
                   "raises %r", what, before, real[1], want[1])
        self.check(what)

    def compare_result(self, got, want, kind, what, before):
        if kind in ("getslice", "add", "radd"):
            expect(isinstance(got, (list, ListCollection)),
                   "%s: gave %r", what, got)
            if kind == "add":
                expect(type(got) is type(self.real), "%s: gave a %s", what,
                       type(got).__name__)
            got = list(got)
            expect(len(got) == len(want), "%s on %r: gave %r", what, before,
                   got)
            for g, m in zip(got, want):
                if isinstance(m, Pending):
                    self.w.check_new(g, m.value, what)
                else:
                    expect(g is m, "%s on %r: gave %r", what, before, got)
        elif kind in ("pop", "popi", "get"):
            expect(got is want, "%s on %r: gave %r, expected %r", what,
                   before, got, want)
        elif kind in ("index", "count", "contains", "eq", "ne", "iterate"):
            expect(got == want and type(got) is type(want),
                   "%s on %r: gave %r, expected %r", what, before, got, want)
        else:
            expect(got is None, "%s: gave %r", what, got)

    def source(self, form, keys, real):
        if form == "self":
            return self.real if real else list(self.model)
        raw = [self.w.raw[k] for k in keys]
        if not real:
            return [self.w.ingoing(k) for k in keys]
        if form == "coll":
            return type(self.real)(raw)
        return ITERABLES[form](raw)

    def model_op(self, m, op):
        k = op[0]
        g = self.w.good
        if k == "append":
            m.append(self.w.ingoing(op[1]))
        elif k == "extend":
            m.extend(self.source(op[1], op[2], False))
        elif k == "insert":
            m.insert(op[1], self.w.ingoing(op[2]))
        elif k == "pop":
            return m.pop()
        elif k == "popi":
            return m.pop(op[1])
        elif k == "remove":
            # these take a value as it is
            m.remove(self.w.raw[op[1]])
        elif k == "index":
            return m.index(self.w.raw[op[1]], *op[2:])
        elif k == "count":
            return m.count(self.w.raw[op[1]])
        elif k == "contains":
            return (g[op[1]] if op[1] in g else self.w.coer[op[1]][1]) in m
        elif k == "reverse":
            m.reverse()
        elif k == "sort":
            m.sort(**SORTS[op[1]])
        elif k == "add":
            return m + self.source(op[1], op[2], False)
        elif k == "get":
            return m[op[1]]
        elif k == "getslice":
            return m[slice(*op[1])]
        elif k == "set":
            m[op[1]]
            m[op[1]] = self.w.ingoing(op[2])
        elif k == "setslice":
            m[slice(*op[1])] = self.source(op[2], op[3], False)
        elif k == "del":
            del m[op[1]]
        elif k == "delslice":
            del m[slice(*op[1])]
        elif k == "values":
            m[:] = self.source(op[1], op[2], False)
        elif k == "eq":
            return True
        elif k == "ne":
            return False
        elif k == "iterate":
            return [m, m, m, m[::-1], list(zip(m, m))]
        else:
            raise AssertionError(op)

    def real_op(self, op):
        k = op[0]
        c = self.real
        raw = self.w.raw
        if k == "append":
            return c.append(raw[op[1]])
        if k == "extend":
            return c.extend(self.source(op[1], op[2], True))
        if k == "insert":
            return c.insert(op[1], raw[op[2]])
        if k == "pop":
            return c.pop()
        if k == "popi":
            return c.pop(op[1])
        if k == "remove":
            return c.remove(raw[op[1]])
        if k == "index":
            return c.index(raw[op[1]], *op[2:])
        if k == "count":
            return c.count(raw[op[1]])
        if k == "contains":
            return raw[op[1]] in c
        if k == "reverse":
            return c.reverse()
        if k == "sort":
            return c.sort(**SORTS[op[1]])
        if k == "add":
            return c + self.source(op[1], op[2], True)
        if k == "get":
            return c[op[1]]
        if k == "getslice":
            return c[slice(*op[1])]
        if k == "set":
            c[op[1]] = raw[op[2]]
            return None
        if k == "setslice":
            c[slice(*op[1])] = self.source(op[2], op[3], True)
            return None
        if k == "del":
            del c[op[1]]
            return None
        if k == "delslice":
            del c[slice(*op[1])]
            return None
        if k == "values":
            c.values = self.source(op[1], op[2], True)
            return None
        if k in ("eq", "ne"):
            others = [list(self.model), type(c)(list(self.model))]
            other = others[op[1]]
            return c == other if k == "eq" else c != other
        if k == "iterate":
            it = iter(c)
            other = iter(c)
            return [[x for x in it], [x for x in other], list(c),
                    list(reversed(c)), list(zip(c, c))]


SORTS = {
    "plain": {}, "reverse": {"reverse": True},
    "key": {"key": lambda v: 0}, "keyr": {"key": repr, "reverse": True},
}


def list_ops(w, n, props_values=True, rich=True):
    """every operation on a list of n items"""
    keys = sorted(w.raw)
    good = sorted(w.good)
    ix = list(range(-n - 2, n + 3))
    for k in keys:
        yield ("append", k)
    singles = [(), (good[0],)] + [(k,) for k in keys[1:]]
    seqs = singles + [(good[0], sorted(w.coer)[0]),
                      (good[0], sorted(w.bad)[0]),
                      (sorted(w.bad)[0], good[0]),
                      (good[1], good[0], sorted(w.coer)[0])]
    for s in seqs:
        for form in sorted(ITERABLES):
            if rich or form in ("list", "gen"):
                yield ("extend", form, s)
        if not any(k in w.bad for k in s):
            yield ("extend", "coll", s)
            yield ("add", "coll", s)
        yield ("add", "list", s)
        yield ("values", "list", s)
    yield ("extend", "self", ())
    yield ("add", "self", ())
    yield ("values", "self", ())
    for i in ix:
        for k in keys:
            yield ("insert", i, k)
            yield ("set", i, k)
        yield ("popi", i)
        yield ("get", i)
        yield ("del", i)
    yield ("pop",)
    for k in keys:
        yield ("remove", k)
        yield ("count", k)
        yield ("index", k)
    for k in sorted(w.coer):
        yield ("contains", k)
    for k in good:
        yield ("contains", k)
        for i in ix:
            yield ("index", k, i)
            for j in ix:
                yield ("index", k, i, j)
    yield ("reverse",)
    for s in sorted(SORTS):
        yield ("sort", s)
    yield ("iterate",)
    for k in ("eq", "ne"):
        for i in (0, 1):
            yield (k, i)
    bounds = [None] + (ix if rich else [-1, 0, 1, n])
    steps = [None, 1, 2, -1, -2, 0, n + 1] if rich else [None, -1]
    vals = [(), (good[0],), (sorted(w.coer)[0], good[0]),
            (good[0], sorted(w.bad)[0]),
            (good[0], good[1], sorted(w.coer)[0])]
    for a in bounds:
        for b in bounds:
            for st in steps:
                sl = (a, b, st)
                yield ("getslice", sl)
                yield ("delslice", sl)
                for v in vals:
                    yield ("setslice", sl, "list", v)
                yield ("setslice", sl, "gen", vals[2])
                yield ("setslice", sl, "self", ())


def few_list_ops(w, n):
    """a smaller alphabet for sequences of operations"""
    good = sorted(w.good)
    x, z = sorted(w.coer)[0], sorted(w.bad)[0]
    for k in (good[0], x, z):
        yield ("append", k)
        yield ("insert", 0, k)
        yield ("insert", -1, k)
        yield ("set", 0, k)
        yield ("set", -1, k)
    yield ("extend", "list", (x, good[1]))
    yield ("extend", "gen", (good[1], z))
    yield ("extend", "self", ())
    yield ("pop",)
    yield ("popi", 0)
    yield ("remove", good[0])
    yield ("remove", x)
    yield ("index", good[1], 1)
    yield ("reverse",)
    yield ("sort", "plain")
    yield ("sort", "keyr")
    yield ("setslice", (1, 2, None), "list", (x, good[0]))
    yield ("setslice", (None, None, -1), "list", (x, good[0]))
    yield ("setslice", (0, 0, None), "gen", (good[1], z))
    yield ("delslice", (None, None, 2))
    yield ("del", 1)
    yield ("values", "list", (good[1], x))
    yield ("add", "list", (x,))
    yield ("contains", good[1])


def contents(w, n, keys=None):
    keys = keys or sorted(w.good)
    for k in range(n + 1):
        for c in itertools.product(keys, repeat=k):
            yield c


def tasks_C09(tier):
    thorough = tier == "thorough"
    tasks = []

    def all_ops(name, maxlen):
        def run(ctx):
            make, w, props = list_makers()[name]

            def case(c, op):
                r = ListRun(make, w, props, c)
                r.apply(op)
            keys = sorted(w.good)[:3]
            for c in contents(w, maxlen, keys):
                ctx.state()
                for op in list_ops(w, len(c)):
                    ctx.run((c, op), case, c, op)
                    ctx.step()
            ctx.bound(max_length=maxlen, items=len(keys))
        return run

    def sequences(name, init_len, depth):
        def run(ctx):
            make, w, props = list_makers()[name]
            ops = list(few_list_ops(w, 0))

            def case(c, seq):
                r = ListRun(make, w, props, c)
                for op in seq:
                    r.apply(op)
            for c in contents(w, init_len, sorted(w.good)[:2]):
                ctx.state()
                for seq in itertools.product(ops, repeat=depth):
                    if seq[0][0] in ("index", "contains", "add"):
                        continue
                    ctx.run((c, seq), case, c, seq)
                    ctx.step(depth)
            ctx.bound(sequence_length=depth, initial_length=init_len)
        return run
    for name in sorted(list_makers()):
        main = name in ("int", "rec", "even")
        tasks.append(("ops/" + name, all_ops(
            name, (4 if main else 3) if thorough else (3 if name == "int"
                                                       else 2))))
        tasks.append(("seq/" + name, sequences(
            name, 2 if thorough else 1, 3 if thorough or main else 2)))
        if thorough and main:
            tasks.append(("seq4/" + name, sequences(name, 1, 4)))
    tasks.append(("construct", list_construct))
    tasks.append(("mutate-while-iterating", list_iter_mutation))
    return tasks


def list_sources(raw):
    """(name, factory of a source, values in order)"""
    n = len(raw)
    idx = list(range(n))
    yield "list", lambda: list(raw), raw
    yield "tuple", lambda: tuple(raw), raw
    yield "iter", lambda: iter(raw), raw
    yield "gen", lambda: (x for x in raw), raw
    yield "deque", lambda: collections.deque(raw), raw
    yield "next", lambda: OnlyNext(raw), raw
    yield "dict", lambda: dict(zip(reversed(idx), raw)), raw[::-1]
    yield "dict-str", lambda: {"k%d" % i: v for i, v in zip(idx, raw)}, raw
    yield "ordered", lambda: collections.OrderedDict(
        zip(idx[::-1], raw)), raw[::-1]
    yield "mapping", lambda: MapLike(dict(zip(idx[::-1], raw))), raw[::-1]
    yield "dict-values", lambda: dict(zip(idx, raw)).values(), raw
    if not n:
        yield "none", lambda: None, raw
        yield "zero", lambda: 0, raw


class MapLike(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def list_construct(ctx):
    """every way of building one"""
    makers = list_makers()

    def verify(w, got, keys, what):
        got = list(got)
        expect(len(got) == len(keys), "%s: holds %r", what, got)
        for g, k in zip(got, keys):
            m = w.ingoing(k)
            if isinstance(m, Pending):
                w.check_new(g, m.value, what)
            else:
                expect(g is m, "%s: holds %r", what, got)

    def case(name, keys, src):
        make, w, props = makers[name]
        raw = [w.raw[k] for k in keys]
        for sname, f, order in list_sources(raw):
            if sname != src:
                continue
            if name == "prop-json" and src not in ("list", "tuple"):
                continue        # only JSON arrays
            order_keys = list(keys) if order is raw else list(keys)[::-1]
            r = attempt(make, f())
            ctx.step()
            if any(k in w.bad for k in keys):
                expect(r[0] == "exc" and isinstance(r[1], TypeError) and
                       isinstance(r[1], exc.NormalizeError),
                       "accepted as %r", r[1])
            else:
                expect(r[0] == "ok", "refused with %r", r[1])
                verify(w, r[1], order_keys, "from %s" % src)

    def from_collections(name, keys):
        make, w, props = makers[name]
        items = [w.good[k] for k in keys]
        c = make(items)
        T = type(c)
        if isinstance(c, JsonRecordList):
            T = lambda v: type(c)(values=v)
        for what, src in (
            ("itself", c), ("a plain subclass", type("L", (type(c),), {})(items)),
            ("untyped", type("O", (ListCollection,),
                             dict(itemtype=object))(items)),
        ):
            if isinstance(c, JsonRecordList) and what != "itself":
                continue
            d = T(src)
            expect([x for x in d] == items and all(
                x is y for x, y in zip(d, items)), "from %s: %r", what, d)
            if keys:
                d.pop()
                d.append(items[0])
                d.reverse()
            expect(list(src) == items, "building from a collection and "
                   "changing the copy changed the original: %r", src)
            src2 = T(items)
            e = T(src2)
            src2.append(w.good[sorted(w.good)[0]])
            expect(list(e) == items, "changing the source changed the copy")
            ctx.step(2)
        expect(items == [w.good[k] for k in keys], "input changed")

    def refused(name, i):
        make, w, props = makers[name]
        v = ["text", "", "x", 5, Plain(), 1.5, True][i]
        if isinstance(v, str) and "json" in name:
            return              # taken for a JSON document
        r = attempt(make, v)
        expect(r[0] == "exc" and isinstance(r[1], TypeError) and
               isinstance(r[1], exc.NormalizeError), "%r: gave %r", v, r[1])

    def source_unchanged(name):
        make, w, props = makers[name]
        keys = sorted(w.good) + sorted(w.coer)
        src = [w.raw[k] for k in keys]
        c = make(src)
        expect(all(a is w.raw[k] for a, k in zip(src, keys)) and
               len(src) == len(keys), "the list passed in was changed")
        n = len(c)
        src.append(src[0])
        expect(len(c) == n, "shares the list that was passed in")
        c.append(src[0])
        expect(len(src) == n + 1, "shares the list that was passed in")
        ctx.step()
    for name in sorted(makers):
        make, w, props = makers[name]
        keys = sorted(w.raw)
        for n in range(0, 3 if not ctx.thorough else 4):
            for ks in itertools.product(keys, repeat=n):
                raw = [w.raw[k] for k in ks]
                for sname, _, _ in list_sources(raw):
                    ctx.run((name, ks, sname), case, name, ks, sname)
                ctx.state()
        good = sorted(w.good)
        for n in range(0, 3):
            for ks in itertools.product(good, repeat=n):
                ctx.run((name, ks, "colls"), from_collections, name, ks)
        for i in range(7):
            ctx.run((name, "refused", i), refused, name, i)
        ctx.run((name, "source"), source_unchanged, name)


def list_iter_mutation(ctx):
    """iterators see changes the way list iterators do"""
    makers = list_makers()

    def case(name, c, steps, op):
        make, w, props = makers[name]
        r = ListRun(make, w, props, c)
        it, mit = iter(r.real), iter(r.model)
        m = r.model
        got, want = [], []
        for _ in range(steps):
            got.append(next(it, None))
            want.append(next(mit, None))
        # the model list must be changed in place for its iterator to follow
        m2 = list(m)
        a = attempt(r.model_op, m2, op)
        b = attempt(r.real_op, op)
        expect(a[0] == b[0], "%r: %r, a list: %r", op, b, a)
        if a[0] == "ok":
            m[:] = m2
        n = 0
        for x in it:
            got.append(x)
            n += 1
            if n > 20:
                break
        want.extend(itertools.islice(mit, 20))
        want = [x.value if isinstance(x, Pending) else x for x in want]
        expect(len(got) == len(want) and all(
            g is x or g == x for g, x in zip(got, want)),
            "iterating %r with %r after %d steps gave %r, a list gives %r",
            c, op, steps, got, want)
        ctx.step()
    for name in ("int", "rec", "named", "prop-json"):
        make, w, props = makers[name]
        for c in contents(w, 3, sorted(w.good)[:2]):
            ctx.state()
            for steps in range(0, len(c) + 1):
                for op in few_list_ops(w, len(c)):
                    ctx.run((name, c, steps, op), case, name, c, steps, op)


# -- C10 ---------------------------------------------------------------------

KEYS = ["a", "b", 1, ("t", 2)]


class DictRun(object):
    def __init__(self, make, w, props, contents):
        self.w = w
        self.model = {k: w.good[v] for k, v in contents}
        self.real = make(dict(self.model))
        self.props = props
        self.check("from %r" % (contents,))

    def show(self):
        return {k: v.value if isinstance(v, Pending) else v
                for k, v in self.model.items()}

    def sync(self, what):
        real = list(self.real.items())
        expect([k for k, _ in real] == list(self.model),
               "%s: holds %r, expected %r", what, real, self.show())
        for k, r in real:
            m = self.model[k]
            if isinstance(m, Pending):
                self.w.check_new(r, m.value, what)
                self.model[k] = r
            else:
                expect(r is m, "%s: [%r] is %r, expected the very object %r",
                       what, k, r, m)

    def check(self, what):
        self.sync(what)
        c, m = self.real, self.model
        expect(len(c) == len(m), "%s: len %r", what, len(c))
        expect(bool(c) is bool(m), "%s: truth", what)
        for k in KEYS:
            expect((k in c) is (k in m), "%s: %r in it", what, k)
            r = attempt(lambda: c[k])
            if k in m:
                expect(r[0] == "ok" and r[1] is m[k], "%s: [%r] %r", what, k,
                       r)
            else:
                expect(r[0] == "exc" and isinstance(r[1], KeyError),
                       "%s: [%r] %r", what, k, r)
        expect(isinstance(c, DictCollection), "%s: type", what)
        vals = list(m.values())
        for name, got in (("values", list(c.values())),
                          ("itervalues", list(c.itervalues()))):
            expect(len(got) == len(vals) and all(
                g is v for g, v in zip(got, vals)), "%s: %s gives %r", what,
                name, got)
        for name, got in (("keys", list(c.keys())), ("iter", list(c)),
                          ("iterkeys", list(c.iterkeys()))):
            expect(got == list(m), "%s: %s gives %r", what, name, got)
        for name, got in (("items", list(c.items())),
                          ("iteritems", list(c.iteritems())),
                          ("itertuples", list(c.itertuples()))):
            expect(got == list(m.items()), "%s: %s gives %r", what, name, got)
        if self.props is not None:
            for k, v in self.props.items():
                expect(getattr(c, k) == v, "%s: property %s is now %r", what,
                       k, getattr(c, k))

    def apply(self, op):
        what = repr(op)
        model = dict(self.model)
        before = dict(self.model)
        try:
            want = ("ok", self.model_op(model, op))
        except Bad:
            want = ("bad", None)
        except Exception as e:
            want = ("exc", e)
        real = attempt(self.real_op, op)
        if want[0] == "ok":
            expect(real[0] == "ok", "%s on %r: refused with %r", what, before,
                   real[1])
            self.model = model
            if op[0] in ("pop", "get"):
                expect(real[1] is want[1], "%s on %r: gave %r", what, before,
                       real[1])
            elif op[0] == "popitem":
                expect(real[1][0] == want[1][0] and real[1][1] is want[1][1],
                       "%s on %r: gave %r", what, before, real[1])
            elif op[0] in ("eq", "ne"):
                expect(real[1] is want[1], "%s on %r: gave %r", what, before,
                       real[1])
            else:
                expect(real[1] is None, "%s: gave %r", what, real[1])
        else:
            expect(real[0] == "exc", "%s on %r: gave %r, but it is refused",
                   what, before, real[1])
            if want[0] == "bad":
                expect(isinstance(real[1], TypeError) and
                       isinstance(real[1], exc.NormalizeError),
                       "%s: refused with %r", what, real[1])
            else:
                base = next(c for c in (KeyError, ValueError, TypeError,
                                        Exception) if isinstance(want[1], c))
                expect(isinstance(real[1], base), "%s on %r: raised %r, a "
                       "dict raises %r", what, before, real[1], want[1])
            if op[0] == "update":
                # an update that fails half way may have taken effect so far;
                # but nothing else may have changed
                given = self.given(op)
                got = dict(self.real.items())
                for k, v in got.items():
                    if k in given:
                        expect((k in before and v is before[k]) or
                               isinstance(v, self.w.itype), "%s left %r",
                               what, v)
                    else:
                        expect(k in before and v is before[k],
                               "%s changed [%r] to %r", what, k, v)
                expect(all(k in got for k in before), "%s lost items: %r",
                       what, got)
                self.model = got
        self.check(what)

    @staticmethod
    def given(op):
        rv = set()
        for part in op[2:]:
            rv.update(k for k, _ in part)
        return rv

    def pairs(self, ps):
        return [(k, self.w.raw[v]) for k, v in ps]

    def source(self, form, ps):
        raw = self.pairs(ps)
        if form == "dict":
            return dict(raw)
        if form == "pairs":
            return raw
        if form == "lists":
            return [list(p) for p in raw]
        if form == "gen":
            return (p for p in raw)
        if form == "iter":
            return iter(raw)
        if form == "items":
            return dict(raw).items()
        if form == "maplike":
            return MapLike(dict(raw))
        if form == "keysonly":
            return KeysOnly(dict(raw))
        if form == "coll":
            return type(self.real)(dict(raw))
        if form == "otherdict":
            return type("O", (DictCollection,), dict(itemtype=object))(
                dict(raw))
        raise AssertionError(form)

    def model_op(self, m, op):
        k = op[0]
        if k == "set":
            m[op[1]] = self.w.ingoing(op[2])
        elif k == "get":
            return m[op[1]]
        elif k == "del":
            del m[op[1]]
        elif k == "pop":
            return m.pop(op[1])
        elif k == "popitem":
            return m.popitem()
        elif k == "clear":
            m.clear()
        elif k == "update":
            if op[1] == "self":
                return
            if op[1] == "ragged":
                raise ValueError()
            for part in op[2:]:
                for k, v in part:
                    m[k] = self.w.ingoing(v)
        elif k == "eq":
            return op[1] in ("same", "again", "reordered")
        elif k == "ne":
            return op[1] not in ("same", "again", "reordered")
        else:
            raise AssertionError(op)

    def real_op(self, op):
        c = self.real
        k = op[0]
        if k == "set":
            c[op[1]] = self.w.raw[op[2]]
        elif k == "get":
            return c[op[1]]
        elif k == "del":
            del c[op[1]]
        elif k == "pop":
            return c.pop(op[1])
        elif k == "popitem":
            return c.popitem()
        elif k == "clear":
            return c.clear()
        elif k == "update":
            form = op[1]
            if form == "self":
                return c.update(c)
            if form == "none":
                return c.update(None)
            if form == "nothing":
                return c.update()
            if form == "kw":
                return c.update(**dict(self.pairs(op[2])))
            if form == "ragged":
                return c.update([("a", 1, 2)])
            kw = dict(self.pairs(op[3])) if len(op) > 3 else {}
            return c.update(self.source(form, op[2]), **kw)
        elif k in ("eq", "ne"):
            other = {
                "same": lambda: c, "again": lambda: type(c)(dict(self.model)),
                "reordered": lambda: type(c)(
                    dict(reversed(list(self.model.items())))),
                "more": lambda: type(c)(
                    dict(self.model, zz=self.w.good["a"])),
                "notdict": lambda: 5,
            }[op[1]]()
            return c == other if k == "eq" else c != other


class KeysOnly(object):
    """what dict.update takes for a mapping"""
    def __init__(self, d):
        self.d = d

    def keys(self):
        return iter(self.d)

    def __getitem__(self, k):
        return self.d[k]


UPDATE_FORMS = ("dict", "pairs", "lists", "gen", "iter", "items", "maplike",
                "keysonly", "otherdict")


def dict_ops(w, rich=True):
    good = sorted(w.good)
    x, z = sorted(w.coer)[0], sorted(w.bad)[0]
    for k in KEYS:
        for v in sorted(w.raw):
            yield ("set", k, v)
        for o in ("get", "del", "pop"):
            yield (o, k)
    for o in ("get", "del", "pop"):
        for k in ("missing", "", None, 0, False, ()):
            yield (o, k)
    for k in ("", None, 0):
        yield ("set", k, good[0])
        yield ("update", "dict", ((k, x),))
    yield ("popitem",)
    yield ("clear",)
    for f in ("self", "none", "nothing", "ragged"):
        yield ("update", f)
    pairsets = [(), (("a", good[0]),), (("b", x),), (("a", z),),
                (("a", good[1]), ("b", x)), (("b", good[0]), ("a", z)),
                (("b", z), ("a", good[0])), ((1, x), (("t", 2), good[0])),
                (("b", good[1]), ("a", x), (1, good[0]))]
    if rich:
        pairsets += [((k, v),) for k in KEYS for v in sorted(w.raw)]
    for ps in pairsets:
        for f in UPDATE_FORMS:
            if f == "otherdict" and any(v in w.bad for _, v in ps):
                pass
            yield ("update", f, ps)
        if not any(v in w.bad for _, v in ps):
            yield ("update", "coll", ps)
        if all(isinstance(k, str) for k, _ in ps):
            yield ("update", "kw", ps)
        yield ("update", "pairs", ps, (("b", good[0]),))
        yield ("update", "dict", ps, (("a", x), ("b", good[1])))
        yield ("update", "dict", ps, (("a", z),))
    # the same key more than once
    yield ("update", "pairs", (("a", good[0]), ("b", x), ("a", good[1])))
    for k in ("eq", "ne"):
        for o in ("same", "again", "reordered", "more", "notdict"):
            yield (k, o)


def few_dict_ops(w):
    good = sorted(w.good)
    x, z = sorted(w.coer)[0], sorted(w.bad)[0]
    for k in ("a", "b", 1):
        for v in (good[0], x, z):
            yield ("set", k, v)
        yield ("del", k)
    yield ("pop", "a")
    yield ("popitem",)
    yield ("clear",)
    yield ("update", "dict", (("b", good[1]), ("c", x)))
    yield ("update", "pairs", (("b", good[1]), ("a", z)))
    yield ("update", "gen", (("a", good[1]), ("b", x)))
    yield ("update", "kw", (("a", x),))
    yield ("update", "self")


def dict_contents(w, n, vals):
    yield (("", vals[0]),)
    yield ((0, vals[0]), (None, vals[1]))
    for k in range(n + 1):
        for ks in itertools.permutations(KEYS, k):
            for vs in itertools.product(vals, repeat=k):
                yield tuple(zip(ks, vs))


def tasks_C10(tier):
    thorough = tier == "thorough"
    tasks = []

    def all_ops(name, maxlen):
        def run(ctx):
            make, w, props = dict_makers()[name]

            def case(c, op):
                DictRun(make, w, props, c).apply(op)
            for c in dict_contents(w, maxlen, sorted(w.good)[:2]):
                ctx.state()
                for op in dict_ops(w, rich=len(c) < 3):
                    ctx.run((c, op), case, c, op)
                    ctx.step()
            ctx.bound(max_items=maxlen)
        return run

    def sequences(name, depth):
        def run(ctx):
            make, w, props = dict_makers()[name]
            ops = list(few_dict_ops(w))

            def case(c, seq):
                r = DictRun(make, w, props, c)
                for op in seq:
                    r.apply(op)
            g = sorted(w.good)
            for c in ((), (("a", g[0]),), (("b", g[1]), ("a", g[0]))):
                ctx.state()
                for seq in itertools.product(ops, repeat=depth):
                    ctx.run((c, seq), case, c, seq)
                    ctx.step(depth)
            ctx.bound(sequence_length=depth)
        return run
    for name in sorted(dict_makers()):
        main = name in ("int", "rec")
        tasks.append(("ops/" + name, all_ops(name, 3 if thorough else 2)))
        tasks.append(("seq/" + name, sequences(
            name, 3 if thorough or main else 2)))
        if thorough and main:
            tasks.append(("seq4/" + name, sequences(name, 4)))
    tasks.append(("construct", dict_construct))
    return tasks


def dict_sources(keys, raw):
    pairs = list(zip(keys, raw))
    num = list(enumerate(raw))
    yield "dict", lambda: dict(pairs), pairs
    yield "ordered", lambda: collections.OrderedDict(pairs), pairs
    yield "maplike", lambda: MapLike(dict(pairs)), pairs
    yield "iter-pairs", lambda: iter(pairs), pairs
    yield "gen-pairs", lambda: (p for p in pairs), pairs
    yield "next-pairs", lambda: OnlyNext(pairs), pairs
    for odd in (0, 1):
        # pairs in between bare items, which are numbered by their place
        mixed = [(p, p) if i % 2 == odd else (x, (i, x))
                 for i, (p, x) in enumerate(zip(pairs, raw))]
        if len({k for _, (k, _) in mixed}) == len(mixed):
            yield "iter-mixed%d" % odd, lambda mixed=mixed: iter(
                [m[0] for m in mixed]), [m[1] for m in mixed]
    yield "list", lambda: list(raw), num
    yield "tuple", lambda: tuple(raw), num
    yield "iter", lambda: iter(raw), num
    yield "gen", lambda: (x for x in raw), num
    yield "deque", lambda: collections.deque(raw), num
    if not raw:
        yield "none", lambda: None, []


def dict_construct(ctx):
    makers = dict_makers()

    def verify(w, got, want, what):
        items = list(got.items())
        expect([k for k, _ in items] == [k for k, _ in want],
               "%s: holds %r", what, items)
        for (k, g), (_, key) in zip(items, want):
            m = w.ingoing(key)
            if isinstance(m, Pending):
                w.check_new(g, m.value, what)
            else:
                expect(g is m, "%s: holds %r", what, items)

    def case(name, ks, vs, src):
        make, w, props = makers[name]
        raw = [w.raw[v] for v in vs]
        for sname, f, pairs in dict_sources(ks, raw):
            if sname != src:
                continue
            if name == "prop-json" and src not in ("dict", "ordered",
                                                   "maplike"):
                continue        # only JSON objects
            want = [(k, v) for (k, _), v in zip(pairs, vs)]
            r = attempt(make, f())
            ctx.step()
            if any(v in w.bad for v in vs):
                expect(r[0] == "exc" and isinstance(r[1], TypeError) and
                       isinstance(r[1], exc.NormalizeError),
                       "accepted as %r", r[1])
            else:
                expect(r[0] == "ok", "refused with %r", r[1])
                verify(w, r[1], want, "from " + src)

    def from_collections(name, ks, vs):
        make, w, props = makers[name]
        d = {k: w.good[v] for k, v in zip(ks, vs)}
        c = make(dict(d))
        T = type(c)
        if isinstance(c, JsonRecordDict):
            T = lambda v: type(c)(values=v)
        sources = [("itself", c)]
        if not isinstance(c, JsonRecordDict):
            sources += [
                ("a subclass", type("S", (T,), {})(dict(d))),
                ("untyped", type("O", (DictCollection,),
                                 dict(itemtype=object))(dict(d)))]
        for what, src in sources:
            e = T(src)
            expect(list(e.items()) == list(d.items()) and all(
                e[k] is d[k] for k in d), "from %s: %r", what, e)
            e["new"] = w.good["a"]
            e.pop(ks[0] if ks else "new")
            expect(list(src.items()) == list(d.items()),
                   "changing the copy changed the original")
            ctx.step()
        if not isinstance(c, JsonRecordDict):
            L = type("L", (ListCollection,), dict(itemtype=object))
            got = T(OnlyNext(L([w.good[v] for v in vs])))
            expect(list(got.items()) == [
                (i, w.good[v]) for i, v in enumerate(vs)], "%r", got)

    def refused(name, v):
        make, w, props = makers[name]
        if "json" in name:
            return              # taken for a JSON document
        r = attempt(make, v)
        expect(r[0] == "exc" and isinstance(r[1], TypeError) and
               isinstance(r[1], exc.NormalizeError), "%r: gave %r", v, r[1])

    def source_unchanged(name):
        make, w, props = makers[name]
        src = {k: w.raw[k] for k in sorted(w.good) + sorted(w.coer)}
        c = make(src)
        n = len(src)
        expect(all(src[k] is w.raw[k] for k in src) and len(src) == n,
               "the dictionary passed in was changed")
        src["more"] = w.good["a"]
        expect(len(c) == n, "shares the dictionary that was passed in")
        c["other"] = w.good["a"]
        c.pop("a")
        expect(len(src) == n + 1 and "a" in src,
               "shares the dictionary that was passed in")
        ctx.step()
    for name in sorted(makers):
        make, w, props = makers[name]
        raws = sorted(w.raw)
        for n in range(0, 3 if not ctx.thorough else 4):
            for ks in itertools.permutations(KEYS[:3], n):
                for vs in itertools.product(raws, repeat=n):
                    raw = [w.raw[v] for v in vs]
                    for sname, _, _ in dict_sources(ks, raw):
                        ctx.run((name, ks, vs, sname), case, name, ks, vs,
                                sname)
                    ctx.state()
        for n in range(0, 3):
            for ks in itertools.permutations(KEYS[:3], n):
                for vs in itertools.product(sorted(w.good)[:2], repeat=n):
                    ctx.run((name, ks, vs, "colls"), from_collections, name,
                            ks, vs)
        for v in ("text", ""):
            ctx.run((name, "refused", v), refused, name, v)
        ctx.run((name, "source"), source_unchanged, name)
