"""C11 equality and hashing, C12 printing, C13 pickling and copying, C30
observing operations: over every small object of the universe."""
import copy
import itertools
import json
import os
import pickle
import re
import subprocess
import sys
import tempfile

import datetime

import normalize
from normalize import (
    DiffOptions, FieldSelector, ListCollection, MultiFieldSelector, Property,
    Record, VisitorPattern, from_json, to_json,
)
from normalize.diff import DiffTypes
from normalize.exc import KeyHashError
from normalize.coll import Collection, list_of

from . import universe as U
from .c_types import PKINDS, all_opts, declare
from .core import attempt, expect, fail, VERIF
from .universe import (
    build, complete, equal, mutate, mutated, mutations, observe, same, show,
    strip_lazy, trees,
)

PROTOCOLS = range(0, pickle.HIGHEST_PROTOCOL + 1)


# -- C11 ---------------------------------------------------------------------

def check_pair(a, b, ta, tb):
    want = equal(ta, tb)
    eq, ne = attempt(lambda: a == b), attempt(lambda: a != b)
    expect(eq[0] == "ok" and eq[1] is want, "%s == %s: %r, expected %r",
           show(ta), show(tb), eq[1], want)
    expect(ne[0] == "ok" and ne[1] is (not want), "%s != %s: %r",
           show(ta), show(tb), ne[1])
    return want


def tasks_C11(tier):
    thorough = tier == "thorough"
    tasks = []

    def pairs(tname, level, part, parts):
        def run(ctx):
            ts = [complete(t) for t in trees(tname, level)]
            objs = [build(t) for t in ts]
            others = [build(t) for t in ts]
            hashes = [attempt(hash, o) for o in objs]
            hashes2 = [attempt(hash, o) for o in others]
            n = len(ts)

            def row(i):
                eqs = []
                for j in range(n):
                    w = check_pair(objs[i], others[j], ts[i], ts[j])
                    if w:
                        eqs.append(j)
                        expect(hashes[i][0] == hashes2[j][0],
                               "%s == %s, but only one of them has a hash: "
                               "%r, %r", show(ts[i]), show(ts[j]), hashes[i],
                               hashes2[j])
                        if hashes[i][0] == "ok":
                            expect(hashes[i][1] == hashes2[j][1],
                                   "%s == %s, but their hashes differ",
                                   show(ts[i]), show(ts[j]))
                expect(i in eqs, "%s: not equal to its copy", show(ts[i]))
                expect((objs[i] == objs[i]) is True and
                       (objs[i] != objs[i]) is False, "%s: not reflexive",
                       show(ts[i]))
                h = hashes[i]
                if h[0] == "ok":
                    expect(hash(objs[i]) == h[1], "its hash changed")
                else:
                    expect(isinstance(h[1], (TypeError, KeyHashError)), "hash: %r", h[1])
                expect(same(observe(objs[i]), ts[i]) or same(
                    strip_lazy(observe(objs[i])), strip_lazy(ts[i])),
                    "comparing changed it to %r", objs[i])
                return eqs
            rows = {}
            for i in range(part, n, parts):
                r = ctx.run((tname, show(ts[i])), row, i)
                if r is not None:
                    rows[i] = set(r)
                ctx.step(n)
                ctx.state()
            # transitivity, on what the implementation itself said
            def trans(i):
                for j in rows[i]:
                    if j in rows:
                        expect(rows[j] == rows[i], "== is not transitive: "
                               "%s, %s", show(ts[i]), show(ts[j]))
                        expect(i in rows[j], "== is not symmetric")
            for i in sorted(rows):
                if not ctx.stop:
                    ctx.run((tname, "transitive", show(ts[i])), trans, i)
            ctx.bound(objects=n)
        return run
    for tname in U.ALL:
        level = 2 if thorough else 1
        parts = {"Node": 14 if thorough else 2}.get(tname, 1)
        if thorough and tname == "JNode":
            parts = 4
        for p in range(parts):
            tasks.append(("pairs/%s/%d" % (tname, p), pairs(
                tname, level, p, parts)))
    tasks.append(("across-types", across_types))
    tasks.append(("keyed-hash", hash_usable))
    for kind in sorted(PKINDS):
        tasks.append(("declarations/" + kind, eq_declarations(kind)))
    tasks.append(("selector-slots", selector_slots))
    tasks.append(("plain-containers", plain_containers))
    tasks.append(("subtype-items", subtype_items))
    tasks.append(("differences", equal_differences))
    for tname in U.ALL:
        tasks.append(("after-mutation/" + tname, after_mutation(
            tname, 1 if thorough else 0)))
    return tasks


def across_types(ctx):
    pool = []
    for tname in U.ALL:
        ts = [complete(t) for t in trees(tname, 0)]
        pool.extend(ts[:4] + ts[-2:])
    objs = [build(t) for t in pool]
    others = [build(t) for t in pool]
    alien = [5, None, "x", object(), (), 1.5, U.Leaf, FieldSelector("a")]

    def row(i):
        for j in range(len(pool)):
            check_pair(objs[i], others[j], pool[i], pool[j])
        for a in alien:
            if isinstance(a, FieldSelector):
                continue
            expect((objs[i] == a) is False and (objs[i] != a) is True and
                   (a == objs[i]) is False, "%s == %r", show(pool[i]), a)
    for i in range(len(pool)):
        ctx.run((show(pool[i]),), row, i)
        ctx.step(len(pool))
        ctx.state()


def eq_declarations(kind):
    """equality and hashing of records with a property of every set of
    options: only the values and 'extraneous' matter"""
    def run(ctx):
        good, good2 = PKINDS[kind][:2]
        for opts in all_opts():
            if kind == "IntP" and not ctx.thorough and len(opts) > 3:
                continue
            T = type("T", (Record,), dict(
                p=declare(kind, opts, []), k=Property(isa=int)))
            U2 = type("U", (T,), {})
            slots = [{}, {"p": good}, {"p": good2}, {"k": 1},
                     {"k": 1, "p": good}, {"k": 1, "p": good2}]

            def model(s):
                p = s.get("p", good if "lazy" in opts else None)
                return (s.get("k"), None if "ext" in opts else p)

            def case(a, b):
                want = model(a) == model(b)
                x, y = T(**a), T(**b)
                for o1, o2 in ((x, y), (y, x)):
                    expect((o1 == o2) is want and (o1 != o2) is (not want),
                           "%r == %r: %r, expected %r", o1, o2, o1 == o2,
                           want)
                expect((x == U2(**b)) is False, "equal to a subtype's")
                hx, hy = attempt(hash, x), attempt(hash, y)
                if want:
                    expect(hx[0] == hy[0] and (hx[0] == "exc" or
                                               hx[1] == hy[1]),
                           "%r and %r are equal; hashes %r, %r", x, y, hx,
                           hy)
                ctx.step(5)
            for a, b in itertools.product(slots, repeat=2):
                ctx.run((kind, opts, a, b), case, a, b)
            ctx.state()
    return run


def hash_usable(ctx):
    """records as set members and dictionary keys"""
    def case(tname, idx):
        ts = [complete(t) for t in trees(tname, 1)]
        ts = [ts[i] for i in idx]
        model = []
        for t in ts:
            if not any(equal(t, m) for m in model):
                model.append(t)
        s = set()
        d = {}
        for i, t in enumerate(ts):
            s.add(build(t))
            d[build(t)] = i
        expect(len(s) == len(model), "a set of %s has %d members",
               [show(t) for t in ts], len(s))
        for i, t in enumerate(ts):
            last = max(j for j, u in enumerate(ts) if equal(t, u))
            expect(build(t) in s and d[build(t)] == last, "lookup of %s",
                   show(t))
        ctx.step(3)
    for tname in ("Leaf", "LeafSub", "Keyed", "Keyed2"):
        ts = [complete(t) for t in trees(tname, 1)]
        ok = [i for i, t in enumerate(ts)
              if attempt(hash, build(t))[0] == "ok"]
        expect(len(ok) * 2 > len(ts), "%s: most have no hash", tname)
        for n in (2, 3):
            if n == 3 and len(ok) > 30:
                ok = ok[::max(1, len(ok) // (60 if ctx.thorough else 20))]
            for idx in itertools.product(ok, repeat=n):
                if n == 3 and not idx[0] <= idx[1]:
                    continue
                ctx.run((tname, idx), case, tname, idx)
            ctx.state(len(ok))


class SelRec(Record):
    at = Property(isa=FieldSelector)
    also = Property()
    many = Property(isa=tuple)


def subtype_items(ctx):
    """collections of a type, of its subtypes, and of unrelated ones which
    hold equal or even the same items"""
    from normalize import DictCollection
    from normalize.coll import dict_of

    class A(Record):
        n = Property()

    class B(A):
        pass

    class B2(A):
        m = Property()

    class N(int):
        pass
    classes = {}
    for T in (A, B, B2, Record, int, N, bool, object, float):
        classes["list", T, "generic"] = list_of(T)
        classes["dict", T, "generic"] = dict_of(T)
        classes["list", T, "own"] = type(
            T.__name__ + "List", (ListCollection,), dict(itemtype=T))
        classes["dict", T, "own"] = type(
            T.__name__ + "Dict", (DictCollection,), dict(itemtype=T))
    a, b, b2 = A(n=1), B(n=1), B2(n=1)
    items = [[], [a], [b], [b2], [A(n=1)], [B(n=1)], [1], [True], [N(1)],
             [1.0], [b, B(n=2)], [N(1), 2]]
    objs = []
    for (kind, T, how), cls in classes.items():
        for xs in items:
            if all(isinstance(x, T) for x in xs):
                objs.append((kind, T, xs, cls(
                    xs if kind == "list" else dict(zip("pq", xs)))))

    def row(i):
        kind, T, xs, o = objs[i]
        for kind2, T2, xs2, o2 in objs:
            want = (kind, T) == (kind2, T2) and xs == xs2
            expect((o == o2) is want and (o != o2) is not want, "%s of %s and "
                   "%s of %s: %r, %r", kind, T.__name__, kind2, T2.__name__,
                   o, o2)
        ctx.step(len(objs))
    for i in range(len(objs)):
        ctx.state()
        ctx.run((i,) + objs[i][:2] + (repr(objs[i][3]),), row, i)


def plain_containers(ctx):
    """plain lists and dictionaries are taken for the collection they would
    become, if there is one"""
    R = U.R
    leaf, keyed = U.TYPES["Leaf"], U.TYPES["Keyed"]
    jleaf = U.TYPES["JLeaf"]
    bad = object()
    # item type: [(value, what it becomes, as a tree)], None: cannot
    items = {
        "int": [(1, 1), ("1", 1), (2, 2), ("x", None), (None, None),
                (1.0, 1), (bad, None)],
        "Leaf": [(leaf(a=1), R("Leaf", a=1)), ({"a": 1}, R("Leaf", a=1)),
                 (leaf(), R("Leaf")), ({"a": "x"}, None), ({"q": 1}, None),
                 (5, None), (keyed(id=1), None)],
        "JLeaf": [(jleaf(a=1), R("JLeaf", a=1)),
                  ({"A": 1}, R("JLeaf", a=1)), ({"A": "x"}, None),
                  (5, None)],
    }
    good = {"int": [1, 2], "Leaf": [R("Leaf", a=1), R("Leaf")],
            "JLeaf": [R("JLeaf", a=1), R("JLeaf")]}

    def case(iname, kind, mine, theirs):
        tname = iname + ("List" if kind == "L" else "Map")
        keys = "pqr"
        if kind == "L":
            c = build(complete((kind, tname, list(mine), {})))
            other = [v for v, t in theirs]
            want = [t for v, t in theirs] == list(mine)
        else:
            c = build(complete((kind, tname, dict(zip(keys, mine)), {})))
            other = dict(zip(keys, [v for v, t in theirs]))
            want = [t for v, t in theirs] == list(mine)
        for r, w in ((attempt(lambda: c == other), want),
                     (attempt(lambda: other == c), want),
                     (attempt(lambda: c != other), not want),
                     (attempt(lambda: other != c), not want)):
            expect(r == ("ok", w), "%r and %r: %r", c, other, r)
        ctx.step(4)
    for iname, vals in items.items():
        for kind in "LD":
            for n, m in itertools.product(range(3), repeat=2):
                for mine in itertools.product(good[iname], repeat=n):
                    for theirs in itertools.product(vals, repeat=m):
                        ctx.run((iname, kind, mine, repr([v if v is not bad
                                 else "object" for v, t in theirs])), case,
                                iname, kind, mine, theirs)
                    ctx.state()

    def foreign(c, other):
        for r, w in ((attempt(lambda: c == other), False),
                     (attempt(lambda: other == c), False),
                     (attempt(lambda: c != other), True),
                     (attempt(lambda: other != c), True)):
            expect(r == ("ok", w), "%r and %r: %r", c, other, r)
        ctx.step(4)
    for tname, some in (("intList", [1]), ("LeafList", [{"a": 1}]),
                        ("JLeafList", [{"A": 1}]), ("NList", [{"a": 1}]),
                        ("intMap", {"p": 1}), ("LeafMap", {"p": {"a": 1}})):
        c = U.TYPES[tname](some)
        for other in (None, 5, "x", (1,), {1}, object(), iter([1]), b"x",
                      leaf(a=1), [] if tname.endswith("Map") else {}):
            ctx.run(("foreign", tname, type(other).__name__), foreign, c,
                    other)


def selector_slots(ctx):
    """records whose values are field selectors, alone and in containers"""
    sels = [[], ["a"], ["a", 0], ["a", 1], ["a", None], ["b", 0, "c"]]
    pool = [{}]
    for s in sels:
        pool.append({"at": s})
        pool.append({"also": s})
        for s2 in sels[:3]:
            pool.append({"at": s, "also": s2})
            pool.append({"many": [s, s2]})

    def make(d):
        d = {k: tuple(FieldSelector(x) for x in v) if k == "many" else
             FieldSelector(v) for k, v in d.items()}
        return SelRec(**d)

    def case(a, b):
        x, y = make(a), make(b)
        want = a == b
        expect((x == y) is want and (x != y) is (not want), "%r == %r: %r",
               x, y, x == y)
        hx, hy = attempt(hash, x), attempt(hash, y)
        expect(hx[0] == hy[0] == "ok", "hashes: %r, %r", hx, hy)
        if want:
            expect(hx[1] == hy[1], "%r and its copy have different hashes",
                   x)
        expect((y in {x}) is want and len({x, y}) == (1 if want else 2),
               "%r in a set of %r: %r", y, x, y in {x})
        d = list(x.diff_iter(y))
        if want:
            expect(d == [], "the difference of %r and its copy is %r", x, d)
        elif "many" not in a or "many" not in b:
            # (moved items are not reported)
            expect(d != [], "no difference between %r and %r", x, y)
        ctx.step(4)
    for a, b in itertools.product(pool, repeat=2):
        ctx.run((a, b), case, a, b)
    ctx.state(len(pool))


def equal_differences(ctx):
    """comparing the same two objects again gives equal differences, with
    equal hashes"""
    def case(t, u):
        a, b = build(t), build(u)
        r1 = attempt(lambda: list(a.diff_iter(b)))
        r2 = attempt(lambda: list(build(t).diff_iter(build(u))))
        expect(r1[0] == r2[0], "one comparison gave %r, the next %r", r1, r2)
        if r1[0] != "ok":
            return
        expect(r1[1] == r2[1], "one comparison gave %r, the next %r", r1[1],
               r2[1])
        for d, e in zip(r1[1], r2[1]):
            expect(d == e and not d != e and hash(d) == hash(e) and
                   e in {d} and {d: 1}.get(e) == 1,
                   "%r is found twice, with different hashes", d)
        expect(set(r1[1]) == set(r2[1]) and len(set(r1[1])) == len(
            [d for i, d in enumerate(r1[1]) if d not in r1[1][:i]]),
            "as sets, they differ: %r", r1[1])
        ctx.step(2)
    for tname in U.ALL:
        ts = [complete(t) for t in trees(tname, 1)]
        if not ctx.thorough and len(ts) > 40:
            ts = ts[::len(ts) // 40 + 1]
        elif len(ts) > 120:
            ts = ts[::len(ts) // 120 + 1]
        for t, u in itertools.product(ts, repeat=2):
            ctx.run((show(t), show(u)), case, t, u)
        ctx.state(len(ts))


def after_mutation(tname, level):
    def run(ctx):
        def case(t, path, op):
            a, b = build(t), build(t)
            attempt(hash, a)
            a == b, repr(a)
            mutate(a, path, op)
            ta = mutated(t, path, op)
            c = build(ta)
            check_pair(a, c, ta, complete(ta) if 0 else ta)
            check_pair(c, a, ta, ta)
            check_pair(a, b, ta, t)
            check_pair(b, a, t, ta)
            ha, hc = attempt(hash, a), attempt(hash, c)
            expect(ha[0] == hc[0], "hash after the change: %r, of an equal "
                   "one: %r", ha, hc)
            if ha[0] == "ok":
                expect(ha[1] == hc[1], "after the change, its hash is not "
                       "that of an equal object")
            ctx.step(4)
        for t in trees(tname, level):
            t = complete(t)
            ctx.state()
            for path, op in mutations(t):
                if tname == "Opt" and op[:2] == ("del", "de"):
                    continue        # a rebuilt one would have the default
                ctx.run((show(t), path, op), case, t, path, op)
    return run


# -- C12 ---------------------------------------------------------------------

def namespace():
    ns = dict(U.TYPES)
    ns.update(datetime=datetime, FieldSelector=FieldSelector,
              MultiFieldSelector=MultiFieldSelector, DiffTypes=DiffTypes,
              DiffInfo=normalize.diff.DiffInfo, Diff=normalize.diff.Diff,
              JsonDiffInfo=normalize.record.json.JsonDiffInfo,
              JsonDiff=normalize.record.json.JsonDiff)
    return ns


def tasks_C12(tier):
    thorough = tier == "thorough"
    tasks = []

    def reprs(tname, level):
        def run(ctx):
            ns = namespace()

            def check(o, t):
                before = observe(o)
                text = repr(o)
                expect(isinstance(text, str) and repr(o) == text,
                       "printing again gives something else")
                expect(same(observe(o), before), "printing changed it to %r",
                       o)
                got = attempt(eval, text, dict(ns))
                expect(got[0] == "ok", "%s is not an expression: %r", text,
                       got[1])
                o2 = got[1]
                expect(type(o2) is type(o), "%s gives a %s", text,
                       type(o2).__name__)
                expect(same(observe(o2), t), "%s gives %s, expected %s",
                       text, show(observe(o2)), show(t))
                expect((o2 == o) is True, "%s: not equal", text)
                s = attempt(str, o)
                expect(s[0] == "ok" or isinstance(s[1], (TypeError, KeyHashError)),
                       "str(): %r", s[1])
                expect(same(strip_lazy(observe(o)), strip_lazy(before)),
                       "str() changed it to %r", o)
                ctx.step(3)

            def case(t):
                check(build(t), t)

            def mutation(t, path, op):
                o = build(t)
                repr(o)
                mutate(o, path, op)
                check(o, mutated(t, path, op))
            for t in trees(tname, level):
                t = complete(t)
                ctx.state()
                ctx.run((show(t),), case, t)
                for path, op in (mutations(t) if thorough else ()):
                    if tname == "Opt" and op[:2] == ("del", "de"):
                        continue
                    ctx.run((show(t), path, op), mutation, t, path, op)
        return run
    for tname in U.ALL:
        tasks.append(("repr/" + tname, reprs(tname, 2)))
    tasks.append(("strings", odd_strings))
    tasks.append(("kinds", repr_kinds))
    tasks.append(("selectors", repr_selectors))
    tasks.append(("diffs", repr_diffs))
    return tasks


def repr_kinds(ctx):
    """every kind of property times values that may be taken for no value"""
    from normalize import (ROProperty, V1Property, LazyProperty, SafeProperty,
                           JsonProperty, JsonRecord)
    values = [None, 0, False, "", (), [], {}, 0.0, 1, "x", [None], {"": None}]
    kinds = {
        "plain": lambda: Property(),
        "read-only": lambda: ROProperty(),
        "v1": lambda: V1Property(),
        "v1 zero": lambda: Property(v1_none=0),
        "v1 text": lambda: V1Property(v1_none=""),
        "v1 union": lambda: V1Property(isa=(str, int, type(None))),
        "default": lambda: Property(default=7),
        "null default": lambda: Property(default=None),
        "lazy": lambda: LazyProperty(default=lambda: 7),
        "lazy null": lambda: Property(lazy=True, default=lambda: None),
        "safe": lambda: SafeProperty(),
        "json": lambda: JsonProperty(json_name="else"),
        "extraneous": lambda: Property(extraneous=True),
    }
    made = {}
    for base in (Record, JsonRecord):
        for x in kinds:
            for y in ("plain", "v1"):
                name = "K%d" % len(made)
                made[name] = (base, x, y, type(base)(
                    name, (base,), dict(x=kinds[x](), y=kinds[y]())))
    ns = namespace()
    ns.update({n: m[-1] for n, m in made.items()})

    def case(T, given, read):
        o = T(**given)
        if read:
            attempt(getattr, o, "x")
        before = dict(vars(o))
        text = repr(o)
        expect(vars(o) == before, "printing changed it")
        got = attempt(eval, text, dict(ns))
        expect(got[0] == "ok", "%s: %r", text, got)
        now = dict(vars(got[1]))
        expect(type(got[1]) is T and now == before and {
            k: type(v) for k, v in now.items()} == {
                k: type(v) for k, v in before.items()},
            "%s gives %r, not %r", text, now, before)
        expect(got[1] == o, "%s: not equal", text)
        ctx.step()
    for name, (base, x, y, T) in made.items():
        for i, v in [(None, None)] + list(enumerate(values)):
            for j, w in [(None, None)] + list(enumerate(values)):
                given = {}
                if i is not None:
                    given["x"] = v
                if j is not None:
                    given["y"] = w
                if x == "v1 union" and isinstance(
                        v, (list, dict, tuple, float)):
                    continue
                for read in (False, True):
                    ctx.state()
                    ctx.run((base.__name__, x, y, i, j, read), case, T, given,
                            read)


def odd_strings(ctx):
    """text with every special character in every kind of place"""
    ns = namespace()
    chars = ["(", ")", "[", "]", "{", "}", "'", '"', "\\", ",", "=", "\n",
             "values=", "()", "[]", "{}", "\u00e9", " "]

    def case(s):
        for o in (
            U.Leaf(b=s), U.Leaf(b=[s]), U.Leaf(b={s: s}),
            U.NList([U.Leaf(b=s)], name=s), U.NList([], name=s),
            U.NDict({s: U.Leaf(b=s)}, name=s), U.NDict({}, name=s),
            U.JNList(values=[U.JLeaf(b=s)], title=s), U.JNList(title=s),
            U.JNDict(values={s: U.JLeaf(b=s)}, title=s), U.JNDict(title=s),
            U.Node(tags=[s, s], m={s: U.Leaf(b=s)}, u=s),
            U.JNode(jl=[{"b": s}], jd={s: {"b": s}}),
            U.JLeaf({s + "!": s, "A": 1}),
            U.Holder(nl=U.NList([U.Leaf(b=s)], name=s),
                     nd=U.NDict({s: U.Leaf(b=s)}, name=s)),
            U.JHolder(jn=U.JNList(values=[U.JLeaf(b=s)], title=s),
                      jm=U.JNDict(values={s: U.JLeaf(b=s)}, title=s)),
        ):
            text = repr(o)
            got = attempt(eval, text, dict(ns))
            expect(got[0] == "ok" and same(observe(got[1]), observe(o)),
                   "%s gives %r", text, got[1])
            ctx.step()
    for n in (1, 2) if not ctx.thorough else (1, 2, 3):
        for s in itertools.product(chars, repeat=n):
            ctx.run(("".join(s),), case, "".join(s))
            ctx.state()


def selectors_pool():
    els = ["a", "b c", "it's", 0, 3, -1, None, "(", "0", "\u00e9", ""]
    for n in range(0, 4):
        for c in itertools.product(els[:4 if n == 3 else len(els)],
                                   repeat=n):
            yield list(c)


def compatible(sets):
    """a MultiFieldSelector cannot hold a wildcard and something else at the
    same place"""
    at = {}
    for els in sets:
        for i, e in enumerate(els):
            at.setdefault(tuple(els[:i]), set()).add(e)
    return all(len(v) == 1 or None not in v for v in at.values())


def repr_selectors(ctx):
    ns = namespace()

    def fs(els):
        f = FieldSelector(list(els))
        text = repr(f)
        g = eval(text, dict(ns))
        expect(type(g) is FieldSelector and g.selectors == els and g == f,
               "%s gives %r", text, g.selectors)
        expect([type(x) for x in g.selectors] == [type(x) for x in els],
               "%s gives %r", text, g.selectors)
        expect(f.selectors == els, "printing changed it")
        ctx.step()

    def mfs(sets):
        if not compatible(sets):
            return
        m = MultiFieldSelector(*[list(s) for s in sets])
        text = repr(m)
        got = attempt(eval, text, dict(ns))
        expect(got[0] == "ok" and type(got[1]) is MultiFieldSelector,
               "%s gives %r", text, got[1])
        fields = sorted(repr(x.selectors) for x in m)
        expect(sorted(repr(x.selectors) for x in got[1]) == fields,
               "%s gives %r", text, got[1])
        ctx.step()
    pool = list(selectors_pool())
    for els in pool:
        ctx.run(("fs", els), fs, els)
        ctx.state()
    small = [["a"], ["a", "b"], ["a", 0], ["b", None], ["b c", "it's"],
             [0], [None, "a"], ["a", "b", "(]"], ["0"]]
    for n in (0, 1, 2, 3):
        for c in itertools.combinations(small, n):
            ctx.run(("mfs", c), mfs, c)
            ctx.state()


def repr_diffs(ctx):
    """the results of comparisons are records, too"""
    ns = namespace()

    def case(tname, ta, tb):
        a, b = build(ta), build(tb)
        d = a.diff(b)
        for o in [d] + list(d):
            text = repr(o)
            # enumeration values are not records: they print as <EnumValue..>
            source = re.sub(r"<EnumValue [^>]*\('(\w+)'\)>",
                            r"DiffTypes.\1", text)
            got = attempt(eval, source, dict(ns))
            expect(got[0] == "ok", "%s: %r", text, got[1])
            expect(type(got[1]) is type(o) and repr(got[1]) == text,
                   "%s gives %r", text, got[1])
            expect(got[1] == o, "%s: not equal", text)
            ctx.step()
    for tname in ("Leaf", "Node", "KNode", "JNode"):
        ts = list(trees(tname, 0))
        ts = ts[::max(1, len(ts) // 12)]
        for ta, tb in itertools.product(ts, repeat=2):
            ctx.run((tname, show(ta), show(tb)), case, tname, ta, tb)
            ctx.state()


# -- C13 ---------------------------------------------------------------------

COPIERS = {"deepcopy": copy.deepcopy, "copy": copy.copy}
for _p in PROTOCOLS:
    COPIERS["pickle%d" % _p] = (
        lambda o, p=_p: pickle.loads(pickle.dumps(o, p)))


def tasks_C13(tier):
    thorough = tier == "thorough"
    tasks = []

    def copies(tname, level, part, parts):
        def run(ctx):
            def same_object(o, t, how):
                c = COPIERS[how](o)
                expect(c is not o, "%s gave the same object", how)
                expect(type(c) is type(o), "%s gave a %s", how,
                       type(c).__name__)
                expect(same(observe(c), t), "%s gave %s", how,
                       show(observe(c)))
                expect(same(observe(o), t), "%s changed it to %s", how,
                       show(observe(o)))
                expect((c == o) is True and (c != o) is False,
                       "%s: not equal", how)
                expect(same(strip_lazy(observe(c)), strip_lazy(t)),
                       "%s: comparing changed it", how)
                h = attempt(hash, o), attempt(hash, c)
                expect(h[0][0] == h[1][0] and (
                    h[0][0] == "exc" or h[0][1] == h[1][1]),
                    "%s: hash %r, of the copy %r", how, *h)
                ctx.step()
                return c

            def case(t, how):
                o = build(t)
                c = same_object(o, t, how)
                if how == "copy":
                    return
                shared = parts_of(o) & parts_of(c)
                expect(not shared, "%s shares parts with the original", how)
                # and a copy of the copy
                same_object(COPIERS[how](build(t)), t, how)

            def mutation(t, how, path, op):
                # change the copy
                want = mutated(t, path, op)
                o = build(t)
                c = COPIERS[how](o)
                mutate(c, path, op)
                expect(same(observe(c), want), "%s, then %r at %r: %s, "
                       "expected %s", how, op, path, show(observe(c)),
                       show(want))
                expect(same(observe(o), t), "changing the %s changed the "
                       "original to %s", how, show(observe(o)))
                # change the original
                o = build(t)
                c = COPIERS[how](o)
                mutate(o, path, op)
                expect(same(observe(c), t), "changing the original changed "
                       "the %s to %s", how, show(observe(c)))
                expect(same(observe(o), want), "%r after a %s: %s", op, how,
                       show(observe(o)))
                ctx.step(2)
            hows = ("deepcopy", "pickle0", "pickle2",
                    "pickle%d" % pickle.HIGHEST_PROTOCOL)
            for i, t in enumerate(trees(tname, level)):
                if i % parts != part:
                    continue
                t = complete(t)
                ctx.state()
                for how in sorted(COPIERS):
                    ctx.run((show(t), how), case, t, how)
                if i % (1 if thorough or level == 0 else 3):
                    pass
                for path, op in mutations(t):
                    for how in hows if thorough else (hows[0], hows[-1]):
                        ctx.run((show(t), how, path, op), mutation, t, how,
                                path, op)
                    if not path and t[0] == "R":
                        ctx.run((show(t), "copy", path, op), mutation, t,
                                "copy", path, op)
        return run
    for tname in U.ALL:
        parts = 4 if tname == "Node" else 1
        for p in range(parts):
            tasks.append(("copies/%s/%d" % (tname, p), copies(
                tname, (2 if tname != "Node" else 1) if thorough else 0, p,
                parts)))
    tasks.append(("selectors", copy_selectors))
    tasks.append(("other-process", other_process))
    tasks.append(("functional", copies_work))
    return tasks


def parts_of(o, acc=None):
    """ids of all mutable parts"""
    acc = set() if acc is None else acc
    if isinstance(o, Record):
        acc.add(id(o))
        for v in vars(o).values():
            parts_of(v, acc)
    elif isinstance(o, list):
        acc.add(id(o))
        for v in o:
            parts_of(v, acc)
    elif isinstance(o, dict):
        acc.add(id(o))
        for v in o.values():
            parts_of(v, acc)
    elif isinstance(o, tuple):
        for v in o:
            parts_of(v, acc)
    return acc


def copy_selectors(ctx):
    def fs(els, how):
        f = FieldSelector(list(els))
        g = COPIERS[how](f)
        expect(type(g) is FieldSelector and g == f and
               list(g.selectors) == els and g.path == f.path and
               len(g) == len(els), "%s gave %r", how, g)
        leaf = {"b": [U.Leaf(a=1)], 0: 5}
        o = U.Leaf(a=1, b=leaf)
        r1, r2 = attempt(f.get, o), attempt(g.get, o)
        expect(r1[0] == r2[0] and (r1[0] == "exc" or r1[1] is r2[1]),
               "the %s selects something else: %r, %r", how, r1, r2)
        g.extend(FieldSelector(["more"]))
        g.add_index(5)
        if how != "copy":
            expect(list(f.selectors) == els, "changing the %s changed the "
                   "original to %r", how, f)
        f2 = FieldSelector(list(els))
        g2 = COPIERS[how](f2)
        f2.extend(FieldSelector(["more"]))
        if how != "copy":
            expect(list(g2.selectors) == els, "changing the original changed "
                   "the %s to %r", how, g2)
        ctx.step(3)

    def mfs(sets, how):
        if not compatible(sets):
            return
        m = MultiFieldSelector(*[list(s) for s in sets])
        g = COPIERS[how](m)
        expect(type(g) is MultiFieldSelector, "%s gave %r", how, g)
        fields = sorted(repr(x.selectors) for x in m)
        expect(sorted(repr(x.selectors) for x in g) == fields,
               "%s gave %r", how, g)
        o = build(U.R("Node", leaf=U.R("Leaf", a=1, b="x"),
                      kids=U.L("LeafList", [U.R("Leaf", a=1)])))
        r1, r2 = attempt(m.get, o), attempt(g.get, o)
        expect(r1[0] == r2[0] and (r1[0] == "exc" or r1[1] == r2[1]),
               "the %s selects something else: %r, %r", how, r1, r2)
        for probe in ("leaf", "kids", "zz"):
            expect((probe in m) == (probe in g), "%r in the %s", probe, how)
        expect(sorted(repr(x.selectors) for x in m) == fields,
               "%s changed it", how)
        ctx.step()
    for how in sorted(COPIERS):
        for els in selectors_pool():
            ctx.run(("fs", how, els), fs, els, how)
            ctx.state()
        small = [["leaf"], ["leaf", "a"], ["kids", 0], ["kids", None, "a"],
                 ["m", "k"], ["zz"], [None], [0]]
        for n in (0, 1, 2, 3):
            for c in itertools.combinations(small, n):
                ctx.run(("mfs", how, c), mfs, c, how)
                ctx.state()


LOADER = """
import sys, pickle
sys.path[:0] = %r
sys.dont_write_bytecode = True
from mc import universe as U
n = bad = 0
with open(sys.argv[1], "rb") as f:
    while True:
        try:
            tname, idx, level, data = pickle.load(f)
        except EOFError:
            break
        n += 1
        o = pickle.loads(data)
        t = U.complete(list(U.trees(tname, level))[idx])
        if type(o) is not U.TYPES[tname] or not U.same(U.observe(o), t) or \\
                not o == U.build(t):
            bad += 1
            print("BAD", tname, idx, U.show(t), repr(o))
print("DONE", n, bad)
"""


def other_process(ctx):
    """pickles are read by a process that did not write them"""
    def case(tname, level):
        ts = [complete(t) for t in trees(tname, level)]
        count = 0
        with tempfile.NamedTemporaryFile(suffix=".pickle") as f:
            step = max(1, len(ts) // 20)
            for i in range(0, len(ts), step):
                for p in (0, pickle.HIGHEST_PROTOCOL):
                    pickle.dump((tname, i, level,
                                 pickle.dumps(build(ts[i]), p)), f)
                    count += 1
            f.flush()
            repo = os.environ.get("VERIF_REPO", "/repo")
            env = dict(os.environ, PYTHONHASHSEED="7")
            r = subprocess.run(
                [sys.executable, "-s", "-B", "-c", LOADER % [VERIF, repo],
                 f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                text=True, env=env)
        out = r.stdout.strip().splitlines()
        expect(r.returncode == 0 and out and
               out[-1] == "DONE %d 0" % count, "%s", "\n".join(out[-5:]))
        ctx.step(count)
    for tname in U.ALL:
        ctx.run((tname,), case, tname, 0)
        ctx.state()


def copies_work(ctx):
    """copies keep working as what they are: typed, lazy, read-only"""
    def case(how):
        f = COPIERS[how]
        o = f(U.Opt(ro=1))
        for op in (lambda: setattr(o, "ro", 2), lambda: delattr(o, "ro")):
            r = attempt(op)
            expect(r[0] == "exc" and isinstance(r[1], AttributeError),
                   "read-only property of a copy: %r", r)
        expect(o.ro == 1 and o.lo == ["d"] and o.de == 7 and o.v1 is None,
               "%r", o)
        r = attempt(setattr, o, "de", "x")
        expect(r[0] == "exc" and isinstance(r[1], TypeError), "%r", r)
        o.de = "8"
        expect(o.de == 8, "%r", o)
        n = f(U.Node(kids=[U.Leaf(a=1)], n={"x": 1}))
        n.kids.append({"a": "5"})
        expect(type(n.kids[1]) is U.Leaf and n.kids[1].a == 5, "%r", n)
        r = attempt(n.kids.append, 5)
        expect(r[0] == "exc" and isinstance(r[1], TypeError), "%r", r)
        n.n["y"] = "7"
        expect(dict(n.n.items()) == {"x": 1, "y": 7}, "%r", n)
        expect(not n.leaf0 and not n.leaf0.a, "%r", n.leaf0)
        expect(n.lz == "lz", "%r", n)
        j = f(U.JNode(jl=[{"A": 1, "u": 2}], d="2020-01-02"))
        expect(to_json(j) == {"jl": [{"A": 1, "u": 2}], "d": "2020-01-02"},
               "%r", to_json(j))
        g = f(U.Holder(gl=[U.Leaf(a=1)]))
        g.gl.name = "g"
        expect(g.gl.name == "g" and len(g.gl) == 1, "%r", g)
        big = f(list_of(U.Leaf)([U.Leaf(a=i) for i in range(50)]))
        expect([x.a for x in big] == list(range(50)), "%r", big)
        ctx.step(8)
    for how in sorted(COPIERS):
        ctx.run((how,), case, how)
        ctx.state()


# -- C30 ---------------------------------------------------------------------

def opaque(t):
    """does it have lists or dictionaries in untyped places?"""
    if U.is_tree(t):
        inner = t[2] if t[0] == "L" else list(t[2].values()) if \
            t[0] == "D" else []
        return t[1] == "Opt" or any(
            opaque(x) for x in list(inner) + list(t[-1].values()))
    return isinstance(t, (list, dict))


def _plain(v):
    """a comparable form of an observer's answer"""
    if isinstance(v, Record):
        return observe_any(v)
    if isinstance(v, dict):
        return {k: _plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, FieldSelector):
        return ("fs", list(v.selectors))
    return v


def observe_any(o):
    if type(o).__name__ in ("Diff", "JsonDiff", "DiffInfo", "JsonDiffInfo"):
        return repr(o)
    return observe(o)


def _diff(o, other, **kw):
    return sorted(
        (str(d.diff_type), d.base.path, d.other.path)
        for d in o.diff_iter(other, **kw))


def _aux(o):
    rv = []
    for name in sorted(type(o).properties):
        if name + "0" in dir(type(o)):
            a = getattr(o, name + "0")
            rv.append((name, bool(a), type(attempt(
                lambda: a.nosuchattribute)[1]).__name__ != ""))
    return rv


def _reads(o):
    rv = []
    for name in sorted(type(o).properties):
        if name in vars(o) and not isinstance(o, Collection):
            rv.append(_plain(FieldSelector([name]).get(o)))
            rv.append(_plain(MultiFieldSelector(name).get(o)))
            rv.append(name in MultiFieldSelector(name))
    if isinstance(o, Collection):
        rv.append([_plain(x) for x in o])
        rv.append(len(o))
        rv.append([_plain(v) for k, v in o.itertuples()])
    return rv


def observers_for(tname):
    blank = next(iter(trees(tname, 0)))
    last = list(trees(tname, 0))[-1]
    J = tname in U.JSON_TYPES
    obs = {
        "repr": repr, "str": lambda o: attempt(str, o)[0],
        "hash": lambda o: attempt(hash, o)[0],
        "eq": lambda o: [o == build(blank), o == o, o != build(last),
                         o == 5],
        "to_json": lambda o: to_json(o),
        "to_json-": lambda o: to_json(o, extraneous=False),
        "deepcopy": lambda o: _plain(copy.deepcopy(o)),
        "copy": lambda o: _plain(copy.copy(o)),
        "pickle": lambda o: _plain(pickle.loads(pickle.dumps(o, 2))),
        "unpack": lambda o: VisitorPattern.visit(o),
        "unpack-all": lambda o: VisitorPattern.visit(o, extraneous=True),
        "aux": _aux, "reads": _reads,
    }
    if issubclass(U.TYPES[tname], Collection):
        del obs["unpack"], obs["unpack-all"]
        if not U.TYPES[tname].properties:
            pass
    obs["diff-self"] = lambda o: _diff(o, o)
    obs["diff"] = lambda o: (_diff(o, build(last)), _diff(build(blank), o))
    obs["diff-opts"] = lambda o: (
        _diff(o, build(last), ignore_ws=True, ignore_case=True,
              ignore_empty_slots=True, unchanged=True, extraneous=True),
        _diff(o, o, recurse=True, moved=True))
    return obs


def evaluates(name):
    return name not in ("repr", "reads", "copy", "deepcopy", "pickle")


def tasks_C30(tier):
    thorough = tier == "thorough"
    tasks = []

    def single(tname, level, part, parts):
        def run(ctx):
            obs = observers_for(tname)

            def case(t, names):
                o = build(t)
                ids = sorted(parts_of(o))
                keep = [o]
                lz = tname in U.LAZY or tname == "Holder"
                first = {}
                for n in names:
                    got = obs[n](o)
                    now = observe(o)
                    if evaluates(n) or lz:
                        expect(same(strip_lazy(now), strip_lazy(t)),
                               "%s (after %r) changed it to %s", n, names,
                               show(now))
                    else:
                        expect(same(now, t), "%s (after %r) changed it to %s",
                               n, names, show(now))
                    if not lz:
                        expect(sorted(parts_of(o)) == ids,
                               "%s replaced or added parts", n)
                    want = obs[n](build(t))
                    if lz and n in ("repr", "copy", "deepcopy", "pickle",
                                    "reads", "to_json", "to_json-",
                                    "unpack", "unpack-all"):
                        # these show which lazy slots have been evaluated
                        want2 = obs[n](o)
                        expect(_plain(want2) == _plain(got), "%s gives %r, "
                               "then %r", n, got, want2)
                    else:
                        expect(got == want, "%s after %r gives %r, on a "
                               "fresh copy %r", n, names, got, want)
                    ctx.step()
                    if n in first and not lz:
                        expect(first[n] == got, "%s gives %r, then %r", n,
                               first[n], got)
                    first[n] = got
                del keep
            names = sorted(obs)
            for i, t in enumerate(trees(tname, level)):
                if i % parts != part:
                    continue
                t = complete(t)
                ctx.state()
                for a in names:
                    ctx.run((show(t), a), case, t, (a, a))
                    for b in names:
                        if a != b:
                            ctx.run((show(t), a, b), case, t, (a, b))
                            if thorough and i % 7 == 0:
                                for c in names:
                                    ctx.run((show(t), a, b, c), case, t,
                                            (a, b, c))
        return run

    def interleaved(tname, level):
        def run(ctx):
            obs = observers_for(tname)
            names = sorted(obs)
            lz = tname in U.LAZY or tname == "Holder"

            def case(t, a, path, op, b):
                o, p = build(t), build(t)
                obs[a](o)
                if a != b:
                    obs[b](o)
                mutate(o, path, op)
                mutate(p, path, op)
                want = mutated(t, path, op)
                expect(same(strip_lazy(observe(o)), strip_lazy(want)),
                       "%s, then %r: %s, expected %s", a, op,
                       show(observe(o)), show(want))
                if not lz or not evaluates(a):
                    got, exp = attempt(obs[b], o), attempt(obs[b], p)
                    if exp[0] == "ok":
                        expect(got[0] == "ok" and got[1] == exp[1],
                               "%s, %r, %s: %r, without the first: %r", a,
                               op, b, got, exp)
                    else:
                        expect(got[0] == "exc", "%s: %r", b, got)
                ctx.step()
            ts = list(trees(tname, level))
            for t in ts[::1 if thorough else max(1, len(ts) // 12)]:
                t = complete(t)
                ctx.state()
                for path, op in mutations(t):
                    if lz and op[0] == "del" and op[1] in U.LAZY.get(
                            tname, {}):
                        continue
                    for a in names:
                        for b in (names if thorough and not path
                                  else (a, "to_json", "repr")):
                            ctx.run((show(t), a, path, op, b), case, t, a,
                                    path, op, b)
        return run

    def plain_data(tname):
        def run(ctx):
            def wreck(v):
                """change everything that can be changed in it"""
                if isinstance(v, dict):
                    for x in list(v.values()):
                        wreck(x)
                    v["wrecked"] = 1
                    for k in list(v)[:1]:
                        v[k] = "wrecked"
                elif isinstance(v, list):
                    for x in v:
                        wreck(x)
                    v.append("wrecked")
                elif isinstance(v, Record):
                    if isinstance(v, ListCollection):
                        for x in list(v):
                            wreck(x)
                        v[:] = []
                    elif isinstance(v, Collection):
                        for x in list(v.values()):
                            wreck(x)
                        v.clear()
                    for k in list(vars(v)):
                        if k in type(v).properties:
                            wreck(getattr(v, k))
                            attempt(delattr, v, k)

            def case(t, what, f):
                o = build(t)
                data = f(o)
                wreck(data)
                expect(same(strip_lazy(observe(o)), strip_lazy(t)),
                       "changing the result of %s changed the object to %s",
                       what, show(observe(o)))
                ctx.step()
            T = U.TYPES[tname]
            sources = {"to_json": to_json,
                       "to_json-": lambda o: to_json(o, extraneous=False)}
            if tname in U.JSON_TYPES:
                sources["json_data"] = lambda o: o.json_data(extraneous=True)
                sources["json_data-"] = lambda o: o.json_data()
            if not issubclass(T, Collection):
                sources["unpack"] = lambda o: VisitorPattern.visit(o)
                sources["unpack+"] = lambda o: VisitorPattern.visit(
                    o, extraneous=True)
                for n in sorted(T.properties):
                    sources["filter-" + n] = (
                        lambda o, n=n: MultiFieldSelector([n]).get(o)
                        if n in vars(o) else None)
            for t in trees(tname, 2 if thorough and tname != "Node" else 1):
                t = complete(t)
                ctx.state()
                for what in sorted(sources):
                    if what.startswith("unpack") and opaque(t):
                        continue    # visits pass such values as they are
                    ctx.run((show(t), what), case, t, what, sources[what])
        return run
    for tname in U.ALL:
        parts = 4 if tname == "Node" else 1
        for p in range(parts):
            tasks.append(("observe/%s/%d" % (tname, p), single(
                tname, 1 if thorough else 0, p, parts)))
        tasks.append(("interleaved/" + tname, interleaved(tname, 0)))
        tasks.append(("plain-data/" + tname, plain_data(tname)))
    return tasks
