"""C34: patterns with hooks of their own, in all three directions, compared
with a reference traversal of plain descriptions (trees)."""
import itertools

from normalize import (
    DictProperty, ListProperty, Property, Record,
)
from normalize import exc
from normalize.coll import Collection, list_of
from normalize.record.json import JsonRecord
from normalize.visitor import Visitor, VisitorPattern

from . import universe as U
from .c_diff import DECL, chunks, more_trees
from .c_visit import (
    NULLS, TYPES, Visit, castable, filters, objects,
)
from .core import attempt, expect, fail
from .universe import D, L, NOTHING, R, build, complete, is_tree, show

PLAIN = ("Leaf", "Keyed", "Node", "KNode", "Holder", "Opt", "NList", "NDict",
         "LeafList", "LeafMap", "strList", "intListMap", "intListList",
         "JLeaf", "JNode", "JNList", "JNDict", "JHolder", "XHolder", "XList")


class Boom(Exception):
    pass


class V(Visitor):
    """a visitor with a context of its own, copied as documented"""
    def __init__(self, *args, **kwargs):
        self.tag = kwargs.pop("tag", None)
        super(V, self).__init__(*args, **kwargs)

    def copy(self):
        doppel = super(V, self).copy()
        doppel.tag = self.tag
        return doppel


def where(visitor, tag):
    expect(type(visitor) is V and visitor.tag is tag, "the visitor is not "
           "the one this started with, or a copy of it: %r", visitor)
    return tuple(visitor.field_selector.selectors)


def watched(gen, visitor, tag, path, lazy=False):
    """the items of gen; the visitor tells the same place all along"""
    n = 0
    for x in gen if gen is not None else ():
        expect(where(visitor, tag) == path, "the place changed to %s while "
               "iterating at %s", visitor.field_selector, path)
        yield x
        n += 1
        if lazy:
            break
        expect(where(visitor, tag) == path, "the place changed to %s while "
               "iterating at %s", visitor.field_selector, path)
    expect(where(visitor, tag) == path, "the place changed at %s", path)


# how scalars and the like are converted, in pattern and reference alike

def tagged(v):
    return ("v", v)


def vanish(v):
    """nothing, for text; nothing much, for other things"""
    return None if isinstance(v, str) else "" if v else v


CONVERT = {"tag": tagged, "vanish": vanish}


def combined(kind, tname, props, coll):
    if kind == "vanish" and not props and not coll:
        return None
    return ("node", tname, props, coll)


class Hooked(Visit):
    """the reference: every call of a hook, and the result"""
    def __init__(self, filt=None, kind="tag", stop=None, **opts):
        super(Hooked, self).__init__(filt, **opts)
        self.kind = kind
        self.conv = CONVERT[kind]
        self.stop = stop or {}

    def start(self, path, tname, v):
        """-> (descend?, value)"""
        self.calls.append(("unpack", path, tname, v))
        if path in self.stop:
            what, rv = self.stop[path]
            if what == "opaque":
                return False, self.scalar(v, None, path)
            return False, rv
        return True, None

    def scalar(self, v, name, path):
        self.calls.append(("apply", path, name, v))
        return self.conv(None if v is NOTHING or is_tree(v) else v)

    def visit(self, t, tname, filt, path):
        on, rv = self.start(path, tname, t)
        if not on:
            return rv
        d = DECL[tname]
        coll = None
        if t[0] != "R":
            coll = []
            for k, v in enumerate(t[2]) if t[0] == "L" else t[2].items():
                if self.hidden(filt, k):
                    continue
                itype = TYPES[tname].itemtype
                if issubclass(itype, Record):
                    v = self.visit(v, itype.__name__, self.sub(filt, k),
                                   path + (k,))
                else:
                    on, rv = self.start(path + (k,), itype.__name__, v)
                    v = self.scalar(v, None, path + (k,)) if on else rv
                if not self.drop(v):
                    coll.append((k, v))
            self.calls.append(("aggregate", path, tname, coll))
        out = []
        for s in self.shown(tname, filt):
            v = t[-1].get(s, U.LAZY.get(tname, {}).get(s, NOTHING))
            if v is NOTHING and s in d["v1"]:
                v = NULLS.get((tname, s))
            if v is NOTHING and not self.apply_empty_slots:
                continue
            if is_tree(v):
                v = self.visit(v, d["types"].get(s, v[1]), self.sub(filt, s),
                               path + (s,))
            else:
                v = self.scalar(v, s, path + (s,))
            if not self.drop(v):
                out.append((s, v))
        out.sort()
        rv = combined(self.kind, tname, out, coll)
        self.calls.append(("reduce", path, tname, rv))
        return rv


def pattern(kind, tag, stop=None, boom=None, lazy=()):
    """-> a pattern whose hooks record their calls"""
    conv = CONVERT[kind]
    stop = stop or {}

    class P(VisitorPattern):
        Visitor = V
        log = []
        error = Boom("here")

        @classmethod
        def at(cls, hook, visitor):
            path = where(visitor, tag)
            if (hook, path) == boom:
                raise cls.error
            return path

        @classmethod
        def unpack(cls, value, value_type, visitor):
            path = cls.at("unpack", visitor)
            cls.log.append(("unpack", path, value_type.__name__,
                            U.observe(value, False)))
            if path in stop:
                what, rv = stop[path]
                if what == "class":
                    return cls.StopVisiting
                if what == "instance":
                    return cls.StopVisiting(rv)
                return None
            return super(P, cls).unpack(value, value_type, visitor)

        @classmethod
        def apply(cls, value, prop, visitor):
            path = cls.at("apply", visitor)
            if isinstance(value, (AttributeError, KeyError)):
                value = NOTHING
            else:
                value = U.observe(value, False)
            if prop is not None:
                expect(prop.name == path[-1], "the property at %s is %r",
                       path, prop)
            cls.log.append(("apply", path, prop and prop.name, value))
            return conv(None if value is NOTHING or is_tree(value)
                        else value)

        @classmethod
        def aggregate(cls, gen, coll_type, visitor):
            path = cls.at("aggregate", visitor)
            rv = list(watched(gen, visitor, tag, path, path in lazy))
            cls.log.append(("aggregate", path, coll_type.__name__, rv))
            return rv

        @classmethod
        def reduce(cls, props, coll, value_type, visitor):
            path = cls.at("reduce", visitor)
            props = [(p.name, v) for p, v in watched(
                props, visitor, tag, path, path in lazy)]
            props.sort()
            rv = combined(kind, value_type.__name__, props, coll)
            cls.log.append(("reduce", path, value_type.__name__, rv))
            return rv
    return P


def plain(t):
    """as observed without lazy values"""
    return U.strip_lazy(t) if is_tree(t) else t


def agree(what, got, want):
    if sorted(got, key=repr) != sorted(want, key=repr):
        extra = [c for c in got if c not in want]
        missing = [c for c in want if c not in got]
        fail("%s: calls %s, not %s", what, extra[:3], missing[:3])


def members(t):
    parts = list(t[-1].values())
    if t[0] != "R":
        parts += list(t[2]) if t[0] == "L" else list(t[2].values())
    return [v for v in parts if is_tree(v)]


def nested(what, log):
    """what is combined has been converted before, and the rest after it has
    been unpacked"""
    begun, done = set(), set()
    for hook, path, name, v in log:
        for i in range(len(path)):
            expect(path[:i] in begun and path[:i] not in done,
                   "%s: %s at %s, out of order", what, hook, path)
        if hook == "unpack":
            begun.add(path)
        elif hook == "reduce":
            done.add(path)


def strip_calls(calls):
    return [(h, p, n, plain(v)) for h, p, n, v in calls]


def tasks_C34(tier):
    tasks = []
    thorough = tier == "thorough"

    def trees(name, most):
        ts = objects(name, False)
        if len(ts) > most:
            ts = ts[::len(ts) // most + 1]
        return ts

    def one(t, kind, filt=None, stop=None, **opts):
        m = Hooked(filt, kind, stop, **opts)
        want = m.top(t)
        tag = object()
        P = pattern(kind, tag, stop)
        kw = dict(opts, tag=tag)
        if filt is not None:
            kw["filter"] = [list(p) for p in filt]
        o = build(t)
        got = P.visit(o, **kw)
        what = "%s, %s, %s" % (show(t), filt, opts)
        if stop:
            what += ", stopping: %s" % stop
        expect(U.same(got, want), "%s: %r, not %r", what, got, want)
        agree(what, strip_calls(P.log), strip_calls(m.calls))
        nested(what, P.log)
        now = U.observe(o)
        expect(U.same(U.strip_lazy(now), U.strip_lazy(t)), "%s: changed to "
               "%s", what, show(now))
        return m

    def hooks(name):
        def run(ctx):
            sets = [dict(zip(("extraneous", "ignore_none",
                              "ignore_empty_string", "apply_empty_slots"), c))
                    for c in itertools.product((False, True), repeat=4)]

            def case(t):
                for kind in CONVERT:
                    for opts in sets:
                        one(t, kind, **opts)
                        ctx.step()
            for t in trees(name, 400):
                ctx.state()
                ctx.run((name, show(t)), case, t)
            ctx.bound(options=len(sets))
        return run

    def filtered(name, depth):
        def run(ctx):
            fs = list(filters(name, depth, 2))
            most = 6000 if ctx.thorough else 300
            fs = fs[::max(1, len(fs) // most)]
            ts = trees(name, 40 if ctx.thorough else 10)

            def case(t, f):
                one(t, "tag", f)
                ctx.step()
            for f in fs:
                ctx.state()
                for t in ts:
                    ctx.run((name, f, show(t)), case, t, f)
            ctx.bound(filters=len(fs))
        return run

    def stopping(name):
        """visits which stop early at every place, and pairs of them"""
        def run(ctx):
            whats = [("class", None), ("instance", "gone"),
                     ("instance", None), ("instance", ""), ("opaque", None)]
            for t in trees(name, 400 if ctx.thorough else 60):
                m = Hooked()
                m.top(t)
                places = sorted(set(c[1] for c in m.calls
                                    if c[0] == "unpack"), key=repr)
                ctx.state()
                for p in places:
                    for w in whats:
                        for opts in ({}, {"ignore_none": False},
                                     {"ignore_empty_string": True}):
                            ctx.run((name, show(t), p, w, opts), lambda: (
                                one(t, "tag", None, {p: w}, **opts)))
                            ctx.step()
                for p, q in itertools.combinations(places, 2):
                    stop = {p: whats[0], q: whats[1]}
                    ctx.run((name, show(t), p, q), one, t, "tag", None, stop)
                    ctx.step()
        return run

    def partial(name):
        """hooks which do not consume all that they are given"""
        def run(ctx):
            def case(t, lazy):
                m = Hooked()
                m.top(t)
                full = strip_calls(m.calls)
                tag = object()
                P = pattern("tag", tag, lazy=lazy)
                P.visit(build(t), tag=tag)
                for c in strip_calls(P.log):
                    if c[0] in ("unpack", "apply"):
                        expect(c in full, "%s, taking one at %s: %r", show(t),
                               lazy, c)
                # all which is not below (or at) where it stops is done
                for c in full:
                    if c[0] in ("unpack", "apply") and not any(
                            c[1][:len(p)] == p and len(c[1]) > len(p)
                            for p in lazy):
                        expect(c in strip_calls(P.log), "%s, taking one at "
                               "%s: no %r", show(t), lazy, c)
                for p in lazy:
                    below = [c for c in strip_calls(P.log)
                             if c[0] == "reduce" and c[1] == p]
                    if not below and any(p[:len(q)] == q for q in lazy
                                         if q != p):
                        continue  # above it, something else was taken
                    expect(len(below) == 1 and len(below[0][3][2]) <= 1 and
                           len(below[0][3][3] or ()) <= 1, "%r", below)
                ctx.step()
            for t in trees(name, 200):
                m = Hooked()
                m.top(t)
                places = sorted(set(c[1] for c in m.calls
                                    if c[0] == "reduce"), key=repr)
                ctx.state()
                for n in (1, 2):
                    for lazy in itertools.combinations(places, n):
                        ctx.run((name, show(t), lazy), case, t, lazy)
        return run

    def raising(name):
        """a hook raises, at every place: that is what the caller gets"""
        def run(ctx):
            for t in trees(name, 400):
                m = Hooked()
                want = m.top(t)
                ctx.state()

                def case(hook, path):
                    tag = object()
                    P = pattern("tag", tag, boom=(hook, path))
                    o = build(t)
                    r = attempt(P.visit, o, tag=tag)
                    expect(r[0] == "exc" and r[1] is P.error, "%s raises at "
                           "%s: %r", hook, path, r)
                    expect(r[1].args == ("here",), "%r", r[1].args)
                    P2 = pattern("tag", tag)
                    expect(U.same(P2.visit(o, tag=tag), want), "afterwards, "
                           "a visit gives something else")
                    ctx.step(2)
                for hook, path in sorted(set(c[:2] for c in m.calls),
                                         key=repr):
                    ctx.run((name, show(t), hook, path), case, hook, path)
        return run

    for name in PLAIN:
        tasks.append(("hooks/" + name, hooks(name)))
        tasks.append(("stopping/" + name, stopping(name)))
        tasks.append(("partial/" + name, partial(name)))
        tasks.append(("raising/" + name, raising(name)))
    for name, depth in (("Node", 3), ("KNode", 3), ("Holder", 4),
                        ("NList", 2), ("LeafMap", 2), ("JNode", 3),
                        ("XHolder", 3)):
        tasks.append(("filtered/" + name, filtered(name, depth)))
    def unions(ctx):
        """slots of several record types: what they hold is visited once, as
        the one of these types which it has"""
        def settled(t):
            return all(is_tree(v) for s, v in t[-1].items() if s in "xyz") \
                and all(settled(v) for v in members(t))
        ts = [complete(t) for t in more_trees("Mixes", 2)]
        ts = [t for t in ts if settled(t)]
        ts = ts[::1 if ctx.thorough else 3]

        def case(t):
            for kind in CONVERT:
                for opts in ({}, {"extraneous": True}, {"ignore_none": False},
                             {"ignore_empty_string": True},
                             {"apply_empty_slots": True}):
                    one(t, kind, **opts)
                    ctx.step()
        for t in ts:
            ctx.state()
            ctx.run(show(t), case, t)
        ctx.bound(objects=len(ts))
    tasks.append(("unions", unions))

    for name in PLAIN:
        tasks.append(("casting/" + name, casting(name)))
    tasks.append(("getters", getters))
    tasks.append(("reflecting", reflecting))
    return tasks


# -- casting -----------------------------------------------------------------

class Cast(object):
    """the reference: the calls made to cast data to a type"""
    def __init__(self, stop=None):
        self.calls = []
        self.stop = stop or {}
        self.m = Visit()

    def cast(self, data, tname, path):
        self.calls.append(("grok", path, tname, data))
        if path in self.stop:
            return
        T = TYPES[tname]
        shown = self.m.shown(tname, None)
        items = data
        if issubclass(T, Collection) and shown and "values" in data:
            items = data["values"]
        if issubclass(T, Collection):
            for k, v in (enumerate(items) if isinstance(items, list) else
                         items.items()):
                if issubclass(T.itemtype, Record):
                    self.cast(v, T.itemtype.__name__, path + (k,))
                else:
                    self.calls.append(("grok", path + (k,),
                                       T.itemtype.__name__, v))
                    self.calls.append(("reverse", path + (k,), None, v))
            self.calls.append(("collect", path, tname, None))
        for s in shown:
            if s not in data or (issubclass(T, Collection) and not shown):
                continue
            v = data[s]
            want = DECL[tname]["types"].get(s)
            if want and v is not None:
                self.cast(v, want, path + (s,))
            else:
                self.calls.append(("reverse", path + (s,), s, v))
        self.calls.append(("produce", path, tname, None))


def cast_pattern(tag, stop=None, boom=None):
    stop = stop or {}

    class P(VisitorPattern):
        Visitor = V
        log = []
        error = Boom("here")

        @classmethod
        def at(cls, hook, visitor):
            path = where(visitor, tag)
            if (hook, path) == boom:
                raise cls.error
            return path

        @classmethod
        def grok(cls, value, value_type, visitor):
            path = cls.at("grok", visitor)
            cls.log.append(("grok", path, value_type.__name__, value))
            if path in stop:
                return cls.StopVisiting(stop[path])
            return super(P, cls).grok(value, value_type, visitor)

        @classmethod
        def reverse(cls, value, prop, visitor):
            path = cls.at("reverse", visitor)
            cls.log.append(("reverse", path, prop and prop.name, value))
            return super(P, cls).reverse(value, prop, visitor)

        @classmethod
        def collect(cls, gen, coll_type, visitor):
            path = cls.at("collect", visitor)
            rv = super(P, cls).collect(
                watched(gen, visitor, tag, path), coll_type, visitor)
            cls.log.append(("collect", path, coll_type.__name__, None))
            return rv

        @classmethod
        def produce(cls, props, coll, value_type, visitor):
            path = cls.at("produce", visitor)
            if props is not None:
                props = watched(props, visitor, tag, path)
            rv = super(P, cls).produce(props, coll, value_type, visitor)
            cls.log.append(("produce", path, value_type.__name__, None))
            return rv
    return P


def typed_record(t, tname, path):
    """a tree like t, with something recognisable at path, or None when the
    type of what is there is not known"""
    if not path:
        return tname
    if path[0] in t[-1] and t[0] == "R" or (
            t[0] != "R" and path[0] in t[-1] and isinstance(path[0], str) and
            path[0] in DECL[tname]["slots"]):
        v = t[-1][path[0]]
        want = DECL[tname]["types"].get(path[0])
        return want and typed_record(v, want, path[1:])
    itype = TYPES[tname].itemtype
    return typed_record(t[2][path[0]], itype.__name__, path[1:])


def at_path(o, path):
    for p in path:
        o = o[p] if not isinstance(p, str) or \
            isinstance(o, Collection) and p in o and \
            p not in type(o).properties else getattr(o, p)
    return o


def casting(name):
    def run(ctx):
        ts = [t for t in objects(name, False) if castable(t, Visit())]
        most = 400
        if len(ts) > most:
            ts = ts[::len(ts) // most + 1]

        def case(t):
            data = VisitorPattern.visit(build(t))
            want = VisitorPattern.cast(TYPES[name], data)
            m = Cast()
            m.cast(data, name, ())
            tag = object()
            P = cast_pattern(tag)
            got = P.cast(TYPES[name], data, tag=tag)
            expect(U.same(U.observe(got), U.observe(want)), "%s: cast to %r",
                   show(t), got)
            agree(show(t), P.log, m.calls)
            ctx.step()
            return m, data

        def stopped(t, data, path, tname):
            instead = build(complete(("R", tname, {})))
            tag = object()
            m = Cast({path: instead})
            m.cast(data, name, ())
            P = cast_pattern(tag, {path: instead})
            got = P.cast(TYPES[name], data, tag=tag)
            there = at_path(got, path)
            expect(there is instead, "%s: %r at %s, not what was given "
                   "there", show(t), there, path)
            agree(show(t), P.log, m.calls)
            ctx.step()

        def raises(t, data, hook, path):
            tag = object()
            P = cast_pattern(tag, None, (hook, path))
            r = attempt(P.cast, TYPES[name], data, tag=tag)
            e = r[1]
            # what a collection's items raise is reported by the collection
            expect(r[0] == "exc" and (e is P.error), "%s: %s raises at %s: "
                   "%r", show(t), hook, path, r)
            ctx.step()

        for t in ts:
            ctx.state()
            r = ctx.run((name, show(t)), case, t)
            if not r:
                continue
            m, data = r
            for hook, path in sorted(set(c[:2] for c in m.calls), key=repr):
                ctx.run((name, show(t), "raises", hook, path), raises, t,
                        data, hook, path)
                if hook != "grok":
                    continue
                tname = [c[2] for c in m.calls if c[:2] == (hook, path)][0]
                T = TYPES.get(tname, int)
                if issubclass(T, Record) and not issubclass(T, Collection):
                    ctx.run((name, show(t), "stop", path), stopped, t, data,
                            path, tname)
    return run


# -- properties which cannot be read -----------------------------------------

class Bad(Record):
    ok = Property()
    oops = Property(lazy=True, isa=int, default=lambda: 1 // 0)


class HasBad(Record):
    one = Property(isa=Bad)
    many = ListProperty(of=Bad)
    named = DictProperty(of=Bad)
    deep = ListProperty(of=list_of(Bad))
    hidden = Property(isa=Bad, extraneous=True)


def getters(ctx):
    """a property which raises when it is read, at every place"""
    def good():
        b = Bad(ok=1)
        b.__dict__["oops"] = 5
        return b
    places = {
        (): lambda b: b,
        ("one",): lambda b: HasBad(one=b, many=[good()]),
        ("many", 0): lambda b: HasBad(one=good(), many=[b, good()]),
        ("many", 1): lambda b: HasBad(many=[good(), b]),
        ("named", "k"): lambda b: HasBad(named={"j": good(), "k": b}),
        ("deep", 1, 0): lambda b: HasBad(deep=[[good()], [b]]),
    }

    def case(path, kw, reached):
        o = places[path](Bad())
        r = attempt(VisitorPattern.visit, o, **kw)
        if not reached:
            expect(r[0] == "ok", "%s: %r", kw, r)
            return
        e = r[1]
        expect(r[0] == "exc" and type(e) is exc.VisitorPropError, "%r", r)
        expect(tuple(e.fs.selectors) == path and e.prop_name == "oops" and
               e.prop is Bad.properties["oops"] and
               e.record_type_name == "Bad" and
               isinstance(e.exception, ZeroDivisionError),
               "at %s: %r names %s", path, e, e.fs)
        ctx.step()
    for path in places:
        star = [None if not isinstance(p, str) or i and path[0] == "named"
                else p for i, p in enumerate(path)]
        for kw, reached in (
            ({}, True), ({"extraneous": True}, True),
            ({"apply_empty_slots": True}, True),
            ({"filter": [list(path) + ["oops"]]}, True),
            ({"filter": [list(path) + ["ok"]]}, False),
            ({"filter": [star + ["oops"]]}, True),
            ({"filter": [star + ["ok"]]}, False),
            ({"filter": [["hidden"]]}, path == () and False),
        ):
            if path == () and kw == {"filter": [["hidden"]]}:
                continue
            ctx.state()
            ctx.run((path, repr(kw)), case, path, kw, reached)

    def hidden(kw, reached):
        o = HasBad(hidden=Bad())
        r = attempt(VisitorPattern.visit, o, **kw)
        expect((r[0] == "exc") is reached, "%s: %r", kw, r)
        if reached:
            expect(tuple(r[1].fs.selectors) == ("hidden",), "%r", r[1])
        ctx.step()
    for kw, reached in (({}, False), ({"extraneous": True}, True)):
        ctx.run(("hidden", repr(kw)), hidden, kw, reached)


# -- reflecting, on types which refer to themselves, too ---------------------

class Tree(Record):
    name = Property(isa=str)
    any = Property()
    secret = Property(isa=int, extraneous=True)


class Ring(Record):
    label = Property(isa=str)


class Chain(Record):
    tree = Property(isa=Tree)
    ring = Property(isa=Ring)
    rings = ListProperty(of=Ring)
    named = DictProperty(of=list_of(Tree))
    ints = ListProperty(of=int)


def reflecting(ctx):
    def reference(T, path, seen, opts, calls, stop):
        calls.append(("scantypes", path, T.__name__))
        if T.__name__ in stop:
            return ("stopped", T.__name__)
        item = None
        if issubclass(T, Collection):
            it = T.itemtype
            if issubclass(it, Record):
                item = reference(it, path + (None,), seen, opts, calls, stop)
            else:
                calls.append(("scantypes", path + (None,), it.__name__))
                calls.append(("propinfo", path + (None,), None))
                item = ("info", it.__name__)
            calls.append(("itemtypes", path, T.__name__))
            item = [item]
        out = []
        for name, p in T.properties.items():
            if p.extraneous and not opts.get("extraneous"):
                continue
            vt = p.valuetype
            if isinstance(vt, type) and issubclass(vt, Record):
                v = reference(vt, path + (name,), seen, opts, calls, stop)
            else:
                calls.append(("propinfo", path + (name,), name))
                v = ("info", name)
            out.append((name, v))
        calls.append(("typeinfo", path, T.__name__))
        return ("type", T.__name__, sorted(out), item)

    def make(tag, stop):
        class P(VisitorPattern):
            Visitor = V
            log = []

            @classmethod
            def scantypes(cls, value, value_type, visitor):
                cls.log.append(("scantypes", where(visitor, tag),
                                value_type.__name__))
                if value_type.__name__ in stop:
                    return cls.StopVisiting(("stopped",
                                             value_type.__name__))
                return super(P, cls).scantypes(value, value_type, visitor)

            @classmethod
            def propinfo(cls, value, prop, visitor):
                cls.log.append(("propinfo", where(visitor, tag),
                                prop and prop.name))
                return ("info", prop.name if prop else value.__name__)

            @classmethod
            def itemtypes(cls, mapped, coll_type, visitor):
                rv = [v for k, v in watched(mapped, visitor, tag, where(
                    visitor, tag))]
                cls.log.append(("itemtypes", where(visitor, tag),
                                coll_type.__name__))
                return rv

            @classmethod
            def typeinfo(cls, props, item, value_type, visitor):
                props = sorted((p.name, v) for p, v in watched(
                    props, visitor, tag, where(visitor, tag)))
                cls.log.append(("typeinfo", where(visitor, tag),
                                value_type.__name__))
                return ("type", value_type.__name__, props, item)
        return P

    def case(T, stop, opts, instance):
        calls = []
        want = reference(T, (), (), opts, calls, stop)
        tag = object()
        P = make(tag, stop)
        got = P.reflect(T() if instance else T, tag=tag, **opts)
        expect(got == want, "%s, stopping at %s: %r, not %r", T.__name__,
               stop, got, want)
        agree(T.__name__, P.log, calls)
        ctx.step()
    names = ("Leaf", "Node", "KNode", "Holder", "NList", "NDict", "LeafMap",
             "intListMap", "XHolder", "JNode")
    for T in [TYPES[n] for n in names] + [Tree, Ring, Chain]:
        inner = sorted(set(c for c in ("Leaf", "Keyed", "LeafList", "LeafMap",
                                       "NList", "Tree", "Ring", "JLeaf",
                                       "intList", "XList", "TreeList")))
        for n in (0, 1, 2):
            for stop in itertools.combinations(inner, n):
                if T.__name__ in stop and n > 1:
                    continue
                for opts in ({}, {"extraneous": True}):
                    for instance in (False, True):
                        ctx.state()
                        ctx.run((T.__name__, stop, opts, instance), case, T,
                                stop, opts, instance)

    def recursive():
        """types which refer to themselves, stopping at those seen before"""
        class Selfish(Record):
            n = Property(isa=int)
        class More(Selfish):
            pass
        items = list_of(Selfish)
        for attr, T in (("next", Selfish), ("all", items)):
            p = Property(isa=T)
            p.set_name(attr)
            p.bind(Selfish)
            Selfish.properties[attr] = p
            setattr(Selfish, attr, p)

        class P(VisitorPattern):
            seen = []

            @classmethod
            def scantypes(cls, value, value_type, visitor):
                if value_type in cls.seen:
                    return cls.StopVisiting({"name": value_type.__name__})
                cls.seen.append(value_type)
                return super(P, cls).scantypes(value, value_type, visitor)
        got = P.reflect(Selfish)
        want = {"name": "Selfish", "properties": {
            "n": {"name": "n", "type": "int"},
            "next": {"name": "Selfish"},
            "all": {"name": "SelfishList",
                    "itemtype": {"name": "Selfish"}}}}
        expect(got == want, "%r, not %r", got, want)
        ctx.step()
    ctx.run("recursive", recursive)
