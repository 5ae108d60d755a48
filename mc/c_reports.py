"""C38: reports of differences, as objects; C39: primary keys."""
import copy
import itertools
import json
import pickle

from normalize import Property, Record
from normalize import exc
from normalize.coll import Collection
from normalize.diff import Diff, DiffInfo, DiffOptions, DiffTypes, diff, \
    diff_iter
from normalize.record.json import JsonDiff, JsonDiffInfo, JsonRecord, to_json
from normalize.selector import FieldSelector, MultiFieldSelector
from normalize.visitor import VisitorPattern

from . import universe as U
from .c_diff import DECL, NAMES, Model, canon, real, space, unhashable_item
from .core import attempt, expect
from .universe import L, NOTHING, R, build, is_tree, show

# kind: (number, name, text)
KINDS = {"none": (1, "UNCHANGED"), "added": (2, "ADDED"),
         "removed": (3, "REMOVED"), "modified": (4, "MODIFIED"),
         "moved": (5, "MOVED")}


def path_text(sels):
    return FieldSelector(list(sels)).path


def entry_text(kind, base, other):
    if base == other:
        where = path_text(other)
    elif len(base) > len(other) and base[:len(other)] == other:
        where = path_text(base)
    elif len(other) > len(base) and other[:len(base)] == base:
        where = path_text(other)
    else:
        where = "(%s/%s)" % (path_text(base), path_text(other))
    return "<DiffInfo: %s %s>" % (KINDS[kind][1], where)


def report_text(base_name, other_name, entries):
    groups = {}
    for kind, base, other in entries:
        if kind == "added":
            groups.setdefault("+NEW", []).append(other)
        elif kind == "removed":
            groups.setdefault("-OLD", []).append(base)
        elif kind == "modified" and base == other:
            groups.setdefault("<>X", []).append(base)
        elif kind == "modified":
            groups.setdefault("<->OLD", []).append(base)
            groups.setdefault("<+>NEW", []).append(other)
        elif kind == "none":
            groups.setdefault("==X", []).append(base)
    what = base_name
    if base_name != other_name:
        what += " vs " + other_name
    text = "; ".join(
        "%s(%s)" % (k, MultiFieldSelector(*[list(p) for p in v]).path)
        for k, v in groups.items())
    return "<Diff [%s]; %d diff(s)%s>" % (what, len(entries),
                                          text and ": " + text)


def entries(report):
    return [(NAMES[x.diff_type.display_name], tuple(x.base.selectors),
             tuple(x.other.selectors)) for x in report]


OPTIONS = [dict(), dict(unchanged=True, moved=True),
           dict(fuzzy_match=False, ignore_case=True), dict(recurse=True),
           dict(ignore_empty_slots=True, ignore_empty_items=True,
                extraneous=True)]


def tasks_C38(tier):
    tasks = []
    thorough = tier == "thorough"

    def pairs(name, most):
        ts = [t for t in space(name) if not unhashable_item(t)]
        n = max(1, len(ts) * len(ts) // most)
        for i, p in enumerate(itertools.product(ts, repeat=2)):
            if i % n == 0:
                yield p

    def ways(name):
        def run(ctx):
            def case(ta, tb, opts):
                asked(ctx, build(ta), build(tb), opts)
            for ta, tb in pairs(name, 4000 if ctx.thorough else 500):
                ctx.state()
                for opts in OPTIONS:
                    ctx.run((name, show(ta), show(tb), repr(opts)), case, ta,
                            tb, opts)
        return run

    def asked(ctx, a, b, opts):
        want = real(a, b, **opts)
        is_json = isinstance(a, JsonRecord)
        names = type(a).__name__, type(b).__name__
        o = DiffOptions(**opts)
        for d, ours in (
            (diff(a, b, **opts), False), (a.diff(b, **opts), True),
            (diff(a, b, options=o), False),
            (a.diff(b, options=o), True),
        ):
            js = ours and is_json
            expect(type(d) is (JsonDiff if js else Diff), "%r", d)
            expect(entries(d) == want, "%s / %s", d, want)
            expect((d.base_type_name, d.other_type_name) == names,
                   "of %s, %s", d.base_type_name, d.other_type_name)
            for x in d:
                expect(type(x) is (JsonDiffInfo if js else DiffInfo),
                       "%r", x)
            expect(len(d) == len(want), "%d", len(d))
            expect(str(d) == report_text(*names, want), "%s, not %s",
                   d, report_text(*names, want))
            for x, e in zip(d, want):
                expect(str(x) == entry_text(*e), "%s: %s", e, x)
            ctx.step()
        for it, ours in ((a.diff_iter(b, **opts), True),
                         (a.diff_iter(b, options=o), True),
                         (diff_iter(a, b, options=o), False)):
            xs = list(it)
            expect(entries(xs) == want, "%s / %s", xs, want)
            for x in xs:
                expect(type(x) is (JsonDiffInfo if ours and is_json
                                   else DiffInfo), "%r", x)
            ctx.step()

    def forms(name):
        """whatever a report is converted to, it is the same report"""
        def run(ctx):
            def same(d, e, what, names=True):
                expect(type(e) is type(d), "%s: %r", what, e)
                expect(e == d and d == e and not e != d, "%s: not equal: %r",
                       what, e)
                expect(entries(e) == entries(d), "%s: %s", what, e)
                for x, y in zip(d, e):
                    expect(x == y and type(x) is type(y) and
                           hash(x) == hash(y) and str(x) == str(y),
                           "%s: %r, not %r", what, y, x)
                    expect(y.diff_type == x.diff_type, "%s: %r", what,
                           y.diff_type)
                if names:
                    expect(str(e) == str(d), "%s: %s", what, e)
                else:
                    # the names of the types are not written
                    expect(str(e).split("; ", 1)[1] ==
                           str(d).split("; ", 1)[1], "%s: %s", what, e)
                ctx.step()

            def case(ta, tb, opts):
                a, b = build(ta), build(tb)
                for d in (diff(a, b, **opts), a.diff(b, **opts)):
                    was = entries(d)
                    for p in range(pickle.HIGHEST_PROTOCOL + 1):
                        same(d, pickle.loads(pickle.dumps(d, p)), "pickled")
                    same(d, copy.copy(d), "copied")
                    deep = copy.deepcopy(d)
                    same(d, deep, "deep copied")
                    for x in deep:
                        x.base.selectors.append("more")
                    expect(entries(d) == was, "the copy is not separate")
                    # visiting it gives plain data and back
                    data = VisitorPattern.visit(d)
                    e = VisitorPattern.cast(type(d), data)
                    same(d, e, "visited and cast back", False)
                    data = VisitorPattern.visit(
                        d, extraneous=True, ignore_empty_string=True)
                    e = VisitorPattern.cast(type(d), data, extraneous=True)
                    same(d, e, "visited with everything, and cast back")
                    if isinstance(d, JsonDiff):
                        for jd in (d.json_data(), d.json_data(True),
                                   to_json(d)):
                            expect(jd == [dict(
                                diff_type=k, base=list(p), other=list(q))
                                for k, p, q in was], "as JSON: %r", jd)
                            e = JsonDiff(json.loads(json.dumps(jd)))
                            same(d, e, "from JSON", False)
                            same(d, JsonDiff.from_json(jd), "from JSON",
                                 False)
                            for x in jd:
                                x["base"].append("more")
                                x["other"].insert(0, "more")
                                x["diff_type"] = "none"
                            expect(entries(d) == was, "its JSON data is not "
                                   "separate: %s", d)
                            expect(entries(e) == was, "what was read from "
                                   "JSON data is not separate: %s", e)
                        for x, (k, p, q) in zip(d, was):
                            expect(x.json_data() == dict(
                                diff_type=k, base=list(p), other=list(q)),
                                "%r", x.json_data())
                            expect(JsonDiffInfo(x.json_data()) == x, "%r", x)
            for ta, tb in pairs(name, 2500 if ctx.thorough else 250):
                ctx.state()
                for opts in OPTIONS[:2]:
                    ctx.run((name, show(ta), show(tb), repr(opts)), case, ta,
                            tb, opts)
        return run

    def compared(ctx):
        """reports are records, and may themselves be compared"""
        infos = [("added", (), ("a",)), ("removed", ("a", 0), ("a",)),
                 ("modified", ("a",), ("a",)), ("modified", ("a",), ("b",)),
                 ("none", (), ()), ("moved", ("a", 0), ("a", 1))]
        reports = [()]
        for n in (1, 2, 3) if ctx.thorough else (1, 2):
            reports += itertools.permutations(infos, n)

        def make(cls, es):
            return cls([cls.itemtype(diff_type=k, base=p, other=q)
                        for k, p, q in es],
                       base_type_name="A", other_type_name="A")

        def case(cls, xs, ys):
            d, e = make(cls, xs), make(cls, ys)
            expect((d == e) == (xs == ys), "%s == %s", d, e)
            for opts in (dict(), dict(ignore_empty_items=True),
                         dict(ignore_empty_slots=True),
                         dict(fuzzy_match=False), dict(ignore_case=True),
                         dict(fuzzy_match=False, unchanged=True)):
                rep = d.diff(e, **opts)
                found = [x for x in rep
                         if x.diff_type != DiffTypes.NO_CHANGE]
                expect(bool(found) == (sorted(xs) != sorted(ys)),
                       "%s with %s: %s", d, e, rep)
                if not opts.get("fuzzy_match", True):
                    gone = sorted(xs[x.base.selectors[0]]
                                  for x in found if len(x.base) == 1)
                    new = sorted(ys[x.other.selectors[0]] for x in found
                                 if len(x.other) == 1)
                    expect(gone == sorted(set(xs) - set(ys)) and
                           new == sorted(set(ys) - set(xs)),
                           "%s with %s: %s", d, e, rep)
                ctx.step()
        for cls in (Diff, JsonDiff):
            for xs, ys in itertools.product(reports, repeat=2):
                if len(xs) + len(ys) > 4:
                    continue
                ctx.state()
                ctx.run((cls.__name__, xs, ys), case, cls, xs, ys)
        ctx.bound(reports=len(reports))

    def ducks(ctx):
        """objects of different types"""
        class A(Record):
            x, y = Property(), Property()

        class B(Record):
            x, y, z = Property(), Property(), Property()

        class JA(JsonRecord):
            x, y = Property(), Property()

        class JB(JA):
            z = Property()

        class Duck(object):
            def __init__(self, **kw):
                self.__dict__.update(kw)
        states = [dict(), dict(x=1), dict(x=2, y="a"), dict(y="A "),
                  dict(x=1, y="b")]

        def case(T, x, U, y, opts):
            asked(ctx, T(**x), U(**y), dict(opts, duck_type=True))
        for T, U in itertools.product((A, B, JA, JB), (A, B, JA, JB, Duck)):
            for x, y in itertools.product(states, repeat=2):
                ctx.state()
                for opts in OPTIONS:
                    ctx.run((T.__name__, x, U.__name__, y, repr(opts)), case,
                            T, x, U, y, opts)

    def texts(ctx):
        """reports of any entries as text"""
        places = [((), ()), (("a",), ("a",)), (("a", 0), ("a", 1)),
                  (("a", 1, "b"), ("a", 0, "b")), (("a", 0), ("a",)),
                  (("a",), ("a", 1)), (("b", None, "k l"), ("b", 2, "k l"))]
        infos = [(k, p, q) for k in KINDS for p, q in places]
        reports = [[x] for x in infos]
        # those with the whole object and wildcards cannot be combined
        infos = [x for x in infos if x[1] and None not in x[1]]
        reports += [list(p) for p in itertools.product(infos, repeat=2)]
        some = [x for x in infos if x[0] in ("modified", "added", "moved")]
        if not ctx.thorough:
            some = some[::3]
        reports += [list(p) for p in itertools.product(some, repeat=3)]

        def case(cls, es, names):
            d = cls([cls.itemtype(diff_type=k, base=p, other=q)
                     for k, p, q in es],
                    base_type_name=names[0], other_type_name=names[1])
            want = report_text(*names, es)
            expect(str(d) == want, "%s, not %s", d, want)
            ctx.step()
        for cls in (Diff, JsonDiff):
            for es in reports:
                ctx.state()
                for names in (("A", "A"), ("A", "B")):
                    ctx.run((cls.__name__, es, names), case, cls, es, names)

    def made(ctx):
        """entries made by hand"""
        values = {k: getattr(DiffTypes, "NO_CHANGE" if k == "none" else
                             k.upper()) for k in KINDS}
        paths = [[], ["a"], [0], [None], ["a", 0, "b"], ["a", None, "\u00e9"]]
        wrong_kinds = [None, 0, 6, "", "ADDED", "gone", 1.5, [], {},
                       DiffTypes]
        wrong_places = [5, 1.5, [{}], [1.5], object()]

        def case(cls, kind, form, p, q, how):
            k = {"name": kind, "number": KINDS[kind][0],
                 "value": values[kind]}[form]
            ps = [FieldSelector(p), FieldSelector(q)] if how == "selector" \
                else [tuple(p), tuple(q)] if how == "tuple" else [p, q]
            d = cls(diff_type=k, base=ps[0], other=ps[1])
            want = (kind, tuple(p), tuple(q))
            expect(entries([d]) == [want], "%r", d)
            expect(d.diff_type == values[kind], "%r", d.diff_type)
            expect(str(d) == entry_text(*want), "%s", d)
            if how == "selector":
                expect(d.base is ps[0] and d.other is ps[1], "%r", d)
            before = entries([d])
            for name, bads in (("diff_type", wrong_kinds),
                               ("base", wrong_places),
                               ("other", wrong_places)):
                for bad in bads:
                    r = attempt(setattr, d, name, bad)
                    expect(r[0] == "exc" and isinstance(
                        r[1], (exc.CoercionError, exc.PropertyRequired)),
                        "%s = %r: %r", name, bad, r)
                    expect(entries([d]) == before, "%s = %r: %r", name, bad,
                           d)
                    r = attempt(cls, **dict(dict(
                        diff_type=k, base=p, other=q), **{name: bad}))
                    expect(r[0] == "exc" and isinstance(
                        r[1], (exc.CoercionError, exc.PropertyRequired)),
                        "%s = %r: %r", name, bad, r)
                    ctx.step(2)
                r = attempt(delattr, d, name)
                expect(r[0] == "exc" and isinstance(
                    r[1], exc.PropertyRequired), "del %s: %r", name, r)
            for missing in ("diff_type", "base", "other"):
                kw = dict(diff_type=k, base=p, other=q)
                del kw[missing]
                r = attempt(cls, **kw)
                expect(r[0] == "exc" and isinstance(
                    r[1], exc.PropertyRequired), "no %s: %r", missing, r)
        for cls in (DiffInfo, JsonDiffInfo):
            for kind in KINDS:
                for form in ("name", "number", "value"):
                    for p, q in itertools.product(paths, repeat=2):
                        for how in ("list", "tuple", "selector"):
                            ctx.state()
                            ctx.run((cls.__name__, kind, form, p, q, how),
                                    case, cls, kind, form, p, q, how)

        def order():
            vs = sorted(values.values())
            expect([v.index for v in vs] == [1, 2, 3, 4, 5], "%r", vs)
            for k, v in values.items():
                expect((v.index, v.display_name) == KINDS[k] and
                       v.canonical_name == k, "%r", v)
        ctx.run("order", order)

    for name in ("Leaf", "Node", "KNode", "NList", "NDict", "JLeaf", "JNode",
                 "TH", "Txt", "Mixes", "Holder", "Keyed2"):
        tasks.append(("ways/" + name, ways(name)))
        tasks.append(("forms/" + name, forms(name)))
    tasks.append(("compared", compared))
    tasks.append(("made", made))
    tasks.append(("ducks", ducks))
    tasks.append(("texts", texts))
    return tasks


# -- C39 ---------------------------------------------------------------------

def key_of(t, tname=None):
    """the primary key of a tree, in some form which can be compared"""
    d = DECL[tname or t[1]]
    if not d["pk"] and t[0] in "LD":
        ids = []
        for v in t[2] if t[0] == "L" else t[2].values():
            ids.append(key_of(v, d["item"]) if is_tree(v) else v)
        return tuple(ids) if t[0] == "L" else \
            tuple(sorted(ids, key=lambda i: repr(same_repr(i))))
    rv = []
    for s in d["pk"] or [s for s in d["slots"] if s not in d["ex"]]:
        v = t[-1].get(s, U.LAZY.get(t[1], {}).get(s, NOTHING))
        rv.append(None if v is NOTHING else
                  key_of(v, d["types"].get(s)) if is_tree(v) else v)
    return tuple(rv)


def same_repr(v):
    """equal values have equal ones"""
    if isinstance(v, tuple):
        return tuple(same_repr(x) for x in v)
    if isinstance(v, (bool, float)) and v == int(v):
        return int(v)
    return v


def hashable(v):
    try:
        hash(v)
    except TypeError:
        return False
    return True


def tasks_C39(tier):
    from .c_diff import SPACES
    tasks = []

    def keys(name):
        def run(ctx):
            ts = [t for t in space(name, ctx.thorough)
                  if not unhashable_item(t)]
            most = 1500 if ctx.thorough else 500
            if len(ts) > most:
                ts = ts[::len(ts) // most + 1]
            ts = [t for t in ts if hashable(key_of(t))]

            def one(t):
                o = build(t)
                pk = o.__pk__
                d = DECL[t[1]]
                ref = key_of(t)
                expect(isinstance(pk, tuple) and len(pk) == len(ref) or
                       t[0] == "D", "%s: key %r", show(t), pk)
                slots = d["pk"] or [s for s in d["slots"]
                                    if s not in d["ex"]]
                if d["pk"] or t[0] == "R":
                    for s, v in zip(slots, pk):
                        w = t[-1].get(s, U.LAZY.get(t[1], {}).get(s))
                        if not is_tree(w):
                            expect(U.same(v, w), "%s: %s is %r in %r",
                                   show(t), s, v, pk)
                expect(hash(pk) == hash(build(t).__pk__) and
                       pk == build(t).__pk__, "%s: not the same again",
                       show(t))
                now = U.strip_lazy(U.observe(o))
                expect(U.same(now, U.strip_lazy(t)), "changed to %s",
                       show(now))
                if not isinstance(o, Collection):
                    expect(hash(o) == hash(pk), "%s: hash", show(t))
                text = repr(pk[0] if len(pk) == 1 else pk)
                if len(text) > 32:
                    text = text[:30] + "..."
                if t[0] == "L":
                    want = "<%s: %d item(s)>" % (t[1], len(t[2]))
                else:
                    want = "<%s %s>" % (t[1], text)
                expect(type(o).__name__ == t[1] and str(o) == want,
                       "%s: as text %s, not %s", show(t), o, want)
                if d["pk"]:
                    for s in d["slots"]:
                        if s not in d["pk"] and s in t[-1]:
                            delattr(o, s)
                    expect(o.__pk__ == pk, "%s: the key depends on other "
                           "properties: %r", show(t), o.__pk__)
                ctx.step()
                return pk

            pks = [ctx.run((name, show(t)), one, t) for t in ts]
            refs = [same_repr(key_of(t)) for t in ts]
            opts = DiffOptions()
            model = Model()
            oids = [opts.record_id(build(t)) for t in ts]
            mids = [model.ident(t) for t in ts]

            def two(i, j):
                what = show(ts[i]), show(ts[j])
                expect((pks[i] == pks[j]) == (refs[i] == refs[j]),
                       "%s / %s: keys %r / %r", *what, pks[i], pks[j])
                if refs[i] == refs[j]:
                    expect(hash(pks[i]) == hash(pks[j]), "%s / %s: hash",
                           *what)
                expect((oids[i] == oids[j]) == (mids[i] == mids[j]),
                       "%s / %s: compared by %r / %r", *what, oids[i],
                       oids[j])
            for i in range(len(ts)):
                ctx.state()
                for j in range(i + 1):
                    if pks[i] is not None and pks[j] is not None:
                        ctx.run((name, show(ts[i]), show(ts[j])), two, i, j)
            ctx.step(len(ts) * (len(ts) + 1) // 2)
            ctx.bound(objects=len(ts))
        return run
    for name in sorted(SPACES):
        tasks.append(("keys/" + name, keys(name)))
    tasks.append(("declared", declared))
    tasks.append(("subtypes", subtypes_in_unions))
    tasks.append(("unhashable", unhashable))
    return tasks


def subtypes_in_unions(ctx):
    """slots which may hold records of a type or its subtypes"""
    from normalize import ListProperty, Property

    class A(Record):
        n, s = Property(), Property()

    class B(A):
        t, u = Property(), Property(extraneous=True)

    class K(A):
        k = Property()
        primary_key = [k]
    values = [NOTHING, None, 0, "", 1, "x"]
    parts = {A: ["n", "s"], B: ["n", "s", "t"], K: ["k"]}

    def case(T, isa, objs):
        class H(Record):
            x = Property(isa=isa)

        class G(Record):
            x = Property(isa=isa)
            y = Property()
            primary_key = [y, x]

        for new in (lambda o: H(x=T(**o)), lambda o: G(x=T(**o), y=1)):
            hs = []
            for o in objs:
                h = new(o)
                hs.append((h, h.__pk__, hash(h), [o.get(p) for p in
                                                  parts[T]]))
            for h, pk, hh, o in hs:
                for h2, pk2, hh2, o2 in hs:
                    same = o == o2
                    expect((pk == pk2) == same, "%r, %r: %r, %r", h, h2, pk,
                           pk2)
                    expect(not same or hh == hh2, "%r, %r: hash", h, h2)
                ctx.step(len(hs))
    for T in (A, B, K):
        objs = []
        for vs in itertools.product(values, repeat=len(parts[T])):
            objs.append(dict((p, v) for p, v in zip(parts[T], vs)
                             if v is not NOTHING))
        others = [X for X in (A, B, K) if X is not T]
        isas = [T, (T, int), (str, T)]
        for X in others:
            isas += [(T, X), (X, T), (T, X, int), (int, X, T)]
        if T is not A:
            isas += [A, (A, int), (int, A)]
        isas += list(itertools.permutations((A, B, K)))
        for isa in isas:
            if isa in (A, (A, int), (int, A)) and T is not A:
                # of the subtype, only what the declared type has counts
                continue
            ctx.state()
            ctx.run((T.__name__, repr(isa)), case, T, isa, objs)


def declared(ctx):
    """keys declared in every way, over a class hierarchy"""
    from normalize import ListCollection, ListProperty, Property
    names = ("a", "b", "c")

    class Base(Record):
        a = Property(isa=int)
        b = Property()
        c = Property(isa=str, extraneous=True)

    vals = [{}, dict(a=1), dict(a=2), dict(b="x"), dict(c="y"),
            dict(a=1, b="x"), dict(a=1, c="y"), dict(b="x", c="y"),
            dict(a=1, b="x", c="y"), dict(a=1, b="x", c="z"),
            dict(a=2, b=None, c="z")]

    def make(where, key, form):
        body = dict(primary_key=[
            Base.properties[n] if form == "property" or
            form == "mixed" and i % 2 else n for i, n in enumerate(key)])
        if form == "tuple":
            body["primary_key"] = tuple(body["primary_key"])
        if where == "own":
            for n in names:
                p = Base.properties[n]
                body[n] = Property(isa=p.valuetype, extraneous=p.extraneous)
            body["primary_key"] = [body[n] if form == "property" else n
                                   for n in key]
            return type("Own", (Record,), body)
        if where == "list":
            body.update(itemtype=int)
            return type("Coll", (ListCollection, Base), body)
        return type("Sub", (Base,), body)

    def case(where, key, form):
        T = make(where, key, form)
        expect(tuple(p.name for p in T.primary_key) == key, "%r",
               T.primary_key)
        made = [T(**v) for v in vals]
        for o, v in zip(made, vals):
            want = tuple(v.get(n) for n in key or (
                "a", "b"))
            if where == "list" and not key:
                want = ()
            expect(o.__pk__ == want, "%r, key %s: %r", v, key, o.__pk__)
            if where != "list":
                text = repr(want[0] if len(want) == 1 else want)
                expect(str(o) == "<%s %s>" % (T.__name__, text), "%s", o)
                expect(hash(o) == hash(want), "hash of %r", o)
        ctx.step(len(vals))
    for where in ("own", "inherited", "list"):
        for n in range(4):
            for key in itertools.permutations(names, n):
                for form in ("name", "property", "mixed", "tuple"):
                    ctx.state()
                    ctx.run((where, key, form), case, where, key, form)

    def inside(T, n):
        """keys of keys"""
        class Outer(Record):
            t = Property(isa=T)
            ts = ListProperty(of=T)
            x = Property(isa=(T, int))
            primary_key = [t, ts, x]
        for v, w in itertools.product(vals, repeat=2):
            o = Outer(t=T(**v), ts=[T(**w), T(**v)], x=T(**w))
            p, q = T(**v).__pk__, T(**w).__pk__
            expect(o.__pk__ == (p, (q, p), q), "%r", o.__pk__)
            o = Outer(x=5)
            expect(o.__pk__ == (None, None, 5), "%r", o.__pk__)
            ctx.step()
    for n, key in enumerate([(), ("a",), ("b", "a"), ("c",)]):
        T = make("inherited", key, "name")
        T.__name__ = "Inner%d" % n
        ctx.run(("inside", key), inside, T, n)


def unhashable(ctx):
    """values of keys which have no hash"""
    from normalize import Property
    values = [[], [1], {}, {"a": 1}, set(), bytearray(b"x")]

    def case(typed, keyed, v, depth):
        body = dict(p=Property(isa=type(v)) if typed else Property(),
                    other=Property())
        if keyed:
            body["primary_key"] = ["p"]
        T = type("Inner", (Record,), body)
        o = T(p=v, other=1)
        for n in range(depth):
            O = type("Outer%d" % n, (Record,), dict(q=Property(isa=type(o))))
            o = O(q=o)
        r = attempt(hash, o)
        if not typed:
            expect(r[0] == "exc" and isinstance(r[1], (
                TypeError, exc.KeyHashError)), "hash: %r", r)
        else:
            e = r[1]
            expect(r[0] == "exc" and type(e) is exc.KeyHashError and
                   e.typename == "Inner" and "Inner.p" in e.prop,
                   "hash: %r", r)
            expect(attempt(lambda: o.__pk__)[0] == "exc", "key")
        # another value, and it has one
        if typed:
            return
        o = T(p=(1,))
        expect(o.__pk__ == ((1,),) if keyed else (None, (1,)), "%r",
               o.__pk__)
        hash(o)
    for v in values:
        for typed in (True, False):
            for keyed in (True, False):
                for depth in range(3):
                    ctx.state()
                    ctx.run((typed, keyed, repr(v), depth), case, typed,
                            keyed, v, depth)
                    ctx.step()

    def items(v):
        from normalize.coll import list_of
        T = list_of(type(v))
        r = attempt(lambda: T([v]).__pk__)
        e = r[1]
        expect(r[0] == "exc" and type(e) is exc.IdentityCrisis and
               e.val is not None and e.val_type is type(v) and
               e.val_type_name == type(v).__name__, "%r", r)
        ctx.step()
    for v in values:
        ctx.run(("items", repr(v)), items, v)
