"""C31: two threads, each with its own objects, under a controlled scheduler.

Only one thread runs at a time; it can be preempted at every source line of
the library.  Every schedule with one (thorough: two) preemptions is run, each
in a fresh forked process, so that the library-wide caches are as they are in
a process which has just defined the types.

Operations which fill something when they are first used are also preempted at
every bytecode instruction which may touch what the other thread sees."""
import dis
import copy
import datetime
import itertools
import json
import os
import pickle
import sys
import threading

import normalize
from normalize import (
    DictProperty, JsonDictProperty, JsonListProperty, JsonProperty,
    JsonRecord, LazyProperty, ListCollection, ListProperty, Property, Record,
    ROProperty, V1Property, from_json, to_json,
)
from normalize.coll import dict_of, list_of
from normalize.diff import DiffOptions, diff_iter
from normalize.identity import record_id
from normalize.property import make_property_type
from normalize.property.types import DateProperty, IntProperty
from normalize.record.json import AutoJsonRecord
from normalize.selector import FieldSelector, MultiFieldSelector
from normalize.subtype import subtype
from normalize.visitor import VisitorPattern

from .core import Violation, expect, fail, forked

# what the standard library loads when first used is not the point here
datetime.datetime.strptime("2020-02-29", "%Y-%m-%d")

LIB = os.path.dirname(normalize.__file__) + os.sep


# -- the types of the threads' objects ----------------------------------------

class TLeaf(Record):
    a = Property(isa=int, coerce=lambda v: int(v))
    b = Property(isa=str, default="b")


class TFresh(Record):
    """has no collection type before a thread makes it"""
    a = Property(isa=int)


class TItem(Record):
    id = Property(isa=int)
    leaf = Property(isa=TLeaf)
    primary_key = [id]


class TNode(Record):
    leaf = Property(isa=TLeaf)
    kids = ListProperty(of=TItem)
    m = DictProperty(of=TLeaf)
    tags = ListProperty(of=str)
    lz = LazyProperty(isa=str, default=lambda self: "lazy %s" % self.tags)
    v1 = V1Property(isa=int)
    u = Property()
    ex = Property(extraneous=True)


class TSub(TNode):
    more = Property(isa=TLeaf)
    ro = ROProperty(isa=int)


class TColl(ListCollection):
    itemtype = TLeaf
    name = Property()


class TJLeaf(JsonRecord):
    a = Property(isa=int, json_name="A")
    when = DateProperty()
    hid = JsonProperty(json_name=None)


class TJNode(JsonRecord):
    leaf = Property(isa=TJLeaf, json_name="theLeaf")
    jl = JsonListProperty(of=TJLeaf)
    jd = JsonDictProperty(of=TJLeaf, json_name="d")
    plain = Property(isa=TLeaf)
    n = JsonProperty(json_name="N", json_in=lambda x: x * 2,
                     json_out=lambda x: x / 2)


class TSaid(object):
    def __init__(self, w):
        self.w = w

    def json_data(self, extraneous=False):
        return [self.w, extraneous]

    @classmethod
    def from_json(cls, x):
        return cls(x)


UNIQUE = itertools.count()


def node(n, cls=TNode, **kw):
    return cls(leaf=TLeaf(a=n), kids=[TItem(id=n), TItem(id=9, leaf=TLeaf(
        a="5", b="x y"))], m={"k": TLeaf(a=n), "(": TLeaf()},
        tags=["t", str(n)], u=[n], ex=n, **kw)


def doc(n):
    return {"theLeaf": {"A": n, "when": "2020-02-29", "more": [n]},
            "jl": [{"A": 1}, {"A": n, "x": {}}], "d": {"k": {"A": n}},
            "plain": {"a": n, "b": "x"}, "N": n, "unknown": {"y": n}}


def refused(f, *a):
    try:
        return repr(f(*a))
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


# operations: what a thread does with its own objects, as a function of a
# number; they give something which can be compared

def op_construct(n):
    o = node(n)
    return repr(o), o == node(n), o == node(n + 1)


def op_refuse(n):
    o = node(n)
    return [refused(lambda: TLeaf(a="x%d" % n)),
            refused(lambda: setattr(o, "leaf", n)),
            refused(lambda: o.kids.append("y%d" % n)),
            refused(lambda: o.kids.extend([TItem(id=n), n])),
            refused(lambda: TNode(zip=n)), repr(o.kids)]


def op_placeholder(n):
    o = TNode()
    s = TSub(more=TLeaf(a=n))
    return [refused(lambda: bool(o.leaf0.a)), refused(lambda: o.leaf0.zz),
            refused(lambda: bool(o.kids0[n].leaf.a)),
            refused(lambda: o.kids0[0].leaf.nope),
            refused(lambda: bool(o.m0["x"].b[0])),
            refused(lambda: o.leaf0.a["x"]),
            refused(lambda: bool(o.u0.what.ever(1)[2])), s.more0.a,
            refused(lambda: bool(s.leaf0.b))]


def op_marshal(n):
    o = TJNode(doc(n))
    p = node(n)
    return [json.dumps(o.json_data(), sort_keys=True),
            json.dumps(o.json_data(extraneous=True), sort_keys=True),
            json.dumps(to_json(p, extraneous=n % 2 == 0), sort_keys=True),
            json.dumps(to_json(o.jl), sort_keys=True)]


def op_unmarshal(n):
    o = from_json(TJNode, json.dumps(doc(n)))
    p = TJNode.from_json(doc(n))
    q = from_json(TNode, {"leaf": {"a": n}, "kids": [{"id": n}],
                          "tags": ["x"], "m": {"z": {"a": "3"}}})
    bad = doc(n)
    bad["jl"][1]["when"] = "nonsense"
    return [repr(o), o == p, repr(o.unknown_json_keys), repr(q),
            refused(lambda: TJNode(bad)),
            refused(lambda: from_json(TNode, {"kids": [{"id": [n]}]}))]


def op_compare(n):
    a, b = node(n), node(n + 1, v1=3)
    b.kids.append(TItem(id=77))
    out = []
    for kw in (dict(unchanged=True, moved=True, extraneous=True),
               dict(compare_filter=[["kids", None, "leaf"], ["m"]],
                    ignore_case=True, ignore_empty_slots=True)):
        out.append(sorted(str(d) for d in diff_iter(a, b, **kw)))
    return out


def op_visit(n):
    o = node(n)
    p = TJNode(doc(n))
    v = VisitorPattern.visit(o)
    return [repr(v), repr(VisitorPattern.cast(TNode, v)),
            repr(VisitorPattern.visit(p, extraneous=True)),
            repr(VisitorPattern.visit(o, filter=[["kids", None, "id"],
                                                 ["leaf"]]))]


def op_reflect(n):
    return [repr(VisitorPattern.reflect(TNode)),
            repr(VisitorPattern.reflect(TJNode, extraneous=True)),
            repr(VisitorPattern.reflect(TColl))]


def op_copy(n):
    o = node(n, TSub, ro=n)
    c = TColl([TLeaf(a=n)], name="c")
    d = copy.deepcopy(o)
    d.kids[0].id = n + 100
    p = pickle.loads(pickle.dumps(o))
    e = copy.copy(c)
    return [repr(o), repr(d), repr(p), o == p, o == d, repr(e),
            repr(pickle.loads(pickle.dumps(c, 2)))]


def op_print(n):
    return [repr(node(n)), str(node(n)), str(TItem(id=n)),
            repr(TJNode(doc(n))), repr(TColl([TLeaf(a=n)], name=n)),
            str(FieldSelector(["kids", 0, "leaf"])),
            str(MultiFieldSelector(["kids", None, "leaf"], ["m"]))]


def op_hash(n):
    a, b = TItem(id=n, leaf=TLeaf(a=n)), TItem(id=n, leaf=TLeaf(a=n))
    x, y = TLeaf(a=n), TLeaf(a=n + 1)
    return [hash(a) == hash(b), a == b, x == y, len({a, b, x, y}),
            repr(record_id(a)), repr(record_id(x)),
            repr(record_id(TColl([x, y])))]


def op_select(n):
    o, t = node(n), TNode(kids=[TItem(id=1)])
    fs = FieldSelector(["kids", None, "leaf", "a"])
    mfs = MultiFieldSelector(["kids", 0], ["leaf", "a"], ["m", "k"])
    FieldSelector(["kids", 0, "leaf", "a"]).post(t, n)
    FieldSelector(["leaf", "b"]).post(t, "n%d" % n)
    got = mfs.get(o)
    mfs.patch(t, o)
    part = copy.deepcopy(o)
    mfs2 = MultiFieldSelector(["kids", None, "id"], ["leaf", "b"])
    mfs2.delete(part)
    return [repr(refused(fs.get, o)), fs.path, mfs.path, repr(got), repr(t),
            repr(part), repr(["kids", 3] in mfs2),
            repr(mfs["kids"]), repr(mfs2["kids"][0]), repr(mfs2["leaf"])]


def op_list(n):
    L = list_of(TLeaf)
    x = L([TLeaf(a=n)])
    y = list_of(TLeaf)([TLeaf(a=n)])
    F = list_of(TFresh)
    D = dict_of(TFresh)
    return [L is list_of(TLeaf), type(x).__name__, type(x) is type(y), x == y,
            F is list_of(TFresh), F([TFresh(a=n)]) == F([TFresh(a=n)]),
            D is dict_of(TFresh), repr(D({"k": TFresh(a=n)})),
            pickle.loads(pickle.dumps(x)) == x]


def op_declare(n):
    """types of its own, made of common ones"""
    class Mine(Record):
        items = ListProperty(of=TLeaf)
        again = ListProperty(of=TLeaf)
        both = DictProperty(of=TItem)
        fresh = ListProperty(of=TFresh)
        num = Property(isa=int, lazy=True, default=lambda: n)
        e = IntProperty(v1_none=0, json_name="E")
        c = Property(isa=int, extraneous=True, lazy=True, default=n,
                     json_name="c%d" % n)
        roc = Property(isa=int, required=True, compare_as=lambda v: v)
    o = Mine(items=[TLeaf(a=n)], again=[TLeaf(a=n)], roc=2, both={"k": TItem(id=1)})
    return [repr(o), sorted(Mine.properties), o.num, o.e, o.c,
            o.items == o.again, type(o.items) is type(o.again),
            sorted(str(d) for d in diff_iter(o, Mine(items=[], roc=n))),
            json.dumps(to_json(o, extraneous=True), sort_keys=True),
            sorted(type(p).__name__ for p in Mine.properties.values())]


def op_lazy(n):
    o = node(n)
    before = "lz" in vars(o)
    return [before, o.lz, o.lz is o.lz, o.v1, refused(lambda: o.zz)]


def op_auto(n):
    o = AutoJsonRecord({"fooBar": n, "sub": {"x": [{"y": n}]}, "l": [1, n]})
    p = AutoJsonRecord({"fooBar": "other", "z": n})
    return [o.foo_bar, o.sub.x[0].y, json.dumps(o.json_data(),
                                                sort_keys=True),
            json.dumps(p.json_data(), sort_keys=True), refused(
                lambda: p.sub)]


def op_subtype(n):
    Even = subtype("Even", of=int, where=lambda x: x % 2 == 0)
    Small = subtype("Small", of=Even, where=lambda x: x < 10)

    class S(Record):
        e = Property(isa=Even)
        s = Property(isa=Small)
    return [isinstance(n, Even), isinstance(n * 2, Small),
            refused(lambda: S(e=n)), refused(lambda: S(s=n * 2)),
            repr(S(e=2, s=4))]


def op_types(n):
    """property types of its own"""
    Mine = make_property_type("Mine", isa=int, default=n + 1)
    Lower = make_property_type(
        "Lower", base_type=JsonProperty, isa=str,
        coerce=lambda v: str(v).lower(), json_out=lambda v: "%s!" % v)

    class Own(Property):
        __trait__ = "own%d" % next(UNIQUE)

        def __init__(self, **kwargs):
            kwargs.setdefault("isa", str)
            super(Own, self).__init__(**kwargs)

    class T(Record):
        a = Mine()
        b = Lower(json_name="B")
        c = Own()
        d = Mine(lazy=True, default=lambda: n)
        e = Lower(traits=["ro"])
    o = T(b="B%d" % n, c="c", e=3)
    return [repr(o), o.d, json.dumps(to_json(o), sort_keys=True),
            refused(lambda: setattr(o, "e", "x")),
            refused(lambda: setattr(o, "a", "x")),
            refused(lambda: T(c=n)), len(set(Mine.traits + Lower.traits)),
            sorted(type(p).__name__ for p in T.properties.values())]


def op_own(n):
    """types with conversions of their own, and visitors and options"""
    class T(JsonRecord):
        s = Property(isa=TSaid)
        l = ListProperty(of=TSaid)

    class V(VisitorPattern):
        @classmethod
        def apply(cls, value, prop, visitor):
            return (n, getattr(value, "w", value))

    class Opts(DiffOptions):
        def normalize_text(self, t):
            return t[:n]
    o = T({"s": n, "l": [n, 2]})
    return [json.dumps(o.json_data()), json.dumps(
        o.json_data(extraneous=True)), o.s.w, [x.w for x in o.l],
        repr(V.visit(node(n))),
        sorted(str(d) for d in diff_iter(
            TLeaf(b="abc"), TLeaf(b="abd"), options=Opts())),
        sorted(str(d) for d in diff_iter(
            TLeaf(b="abc"), TLeaf(b="abd"))),
        sorted(str(d) for d in node(n).diff(node(n + 1), ignore_ws=False))]


OPS = {k[3:]: v for k, v in sorted(globals().items()) if k[:3] == "op_"}


# -- the scheduler --------------------------------------------------------------

class Scheduler(object):
    """Runs two functions in two threads, one at a time.  ``plan`` says how
    many lines of the library each of them runs before the other one goes on:
    [5, 3] is five lines of the first, three of the second, then the first
    until its end, then the second."""

    def __init__(self, fns, plan, opcodes=False, record=None):
        self.fns = fns
        self.opcodes = opcodes
        self.record = record
        self.plan = list(plan)
        self.left = self.plan.pop(0) if self.plan else None
        self.go = [threading.Semaphore(0) for _ in fns]
        self.results = [None] * len(fns)
        self.done = [False] * len(fns)
        self.finished = threading.Semaphore(0)
        self.lines = [0] * len(fns)
        self.where = []

    def run(self):
        threads = [threading.Thread(target=self.thread, args=(i,))
                   for i in range(len(self.fns))]
        for t in threads:
            t.daemon = True
        self.idents = {}
        if self.opcodes:
            # (tracing of opcodes by settrace() crashes Python 3.12 when there
            # are two threads)
            mon = sys.monitoring
            mon.use_tool_id(mon.DEBUGGER_ID, "scheduler")
            mon.register_callback(mon.DEBUGGER_ID, mon.events.INSTRUCTION,
                                  self.instruction)
            mon.set_events(mon.DEBUGGER_ID, mon.events.INSTRUCTION)
        for t in threads:
            t.start()
        self.go[0].release()
        for t in threads:
            if not self.finished.acquire(timeout=30):
                raise Violation("the threads do not finish")
        if self.opcodes:
            mon.set_events(mon.DEBUGGER_ID, 0)
            mon.free_tool_id(mon.DEBUGGER_ID)
        return self.results

    def instruction(self, code, offset):
        if not code.co_filename.startswith(LIB):
            return sys.monitoring.DISABLE
        i = self.idents.get(threading.get_ident())
        if i is not None:
            self.reached(i, code, offset, None)

    def thread(self, i):
        self.go[i].acquire()
        if self.opcodes:
            self.idents[threading.get_ident()] = i
        else:
            sys.settrace(self.tracer(i))
        try:
            r = ("ok", self.fns[i]())
        except BaseException as e:
            r = ("exc", "%s: %s" % (type(e).__name__, str(e)[:200]))
        finally:
            sys.settrace(None)
        self.results[i] = r
        self.done[i] = True
        self.switch(i, True)
        self.finished.release()

    def switch(self, i, last=False):
        for j in range(1, len(self.fns)):
            k = (i + j) % len(self.fns)
            if not self.done[k]:
                break
        else:
            return
        self.left = None if last else self.plan.pop(0) if self.plan else None
        if last:
            self.plan = []
        self.go[k].release()
        at = None
        while not last and not self.go[i].acquire(timeout=0.05):
            if self.lines[k] == at:
                # the other one waits for a lock which this one holds
                self.left = None
                break
            at = self.lines[k]

    def reached(self, i, code, at, line):
        """thread i is about to execute that line or instruction"""
        self.lines[i] += 1
        if self.record is not None:
            self.record.append((code, at))
        if self.left is not None:
            if not self.left:
                self.where.append("%s:%s" % (
                    os.path.basename(code.co_filename),
                    line or "%s+%d" % (code.co_name, at)))
                self.left = None
                self.switch(i)
            else:
                self.left -= 1

    def tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.reached(i, frame.f_code, frame.f_lineno, frame.f_lineno)
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(LIB) else None
        return trace


# instructions which only touch what no other thread can see: stopping before
# one of them is the same as stopping before the next other one
LOCAL = frozenset("""
    LOAD_FAST LOAD_FAST_CHECK LOAD_FAST_AND_CLEAR STORE_FAST LOAD_CONST COPY
    SWAP PUSH_NULL POP_TOP NOP RESUME EXTENDED_ARG CACHE KW_NAMES JUMP_FORWARD
    JUMP_BACKWARD POP_JUMP_IF_NONE POP_JUMP_IF_NOT_NONE IS_OP BUILD_TUPLE
    BUILD_LIST BUILD_MAP BUILD_CONST_KEY_MAP MAKE_CELL COPY_FREE_VARS
    LOAD_CLOSURE MAKE_FUNCTION RETURN_VALUE RETURN_CONST RETURN_GENERATOR
    END_FOR PUSH_EXC_INFO POP_EXCEPT RERAISE YIELD_VALUE
    """.split())
_local_at = {}


def is_local(code, offset):
    if code not in _local_at:
        _local_at[code] = {i.offset for i in dis.get_instructions(code)
                           if i.opname in LOCAL}
    return offset in _local_at[code]


PAIR_NUMBERS = (1, 4)


def norm(r):
    return json.loads(json.dumps(r))


def alone(name, i, most, warm=(), opcodes=False):
    """what an operation gives by itself, in a fresh process, and where it may
    be preempted: before each line the first ``most`` times it is reached
    (None: every time)"""
    def go():
        for w in warm:
            OPS[w](7)
        seq = []
        s = Scheduler([lambda: OPS[name](PAIR_NUMBERS[i])], [], opcodes, seq)
        s.run()
        seen = {}
        points = []
        for k, at in enumerate(seq):
            if opcodes and is_local(*at):
                continue
            seen[at] = seen.get(at, 0) + 1
            if most is None or seen[at] <= most:
                points.append(k)
        return [s.results[0], points, len(seq)]
    r, points, n = forked(go)
    expect(r[0] == "ok", "%s alone: %s", name, r)
    if not points:
        raise RuntimeError("%s runs nothing of the library" % name)
    return norm(r), points, n


def check_pair(x, y, plan, want, warm=(), opcodes=False):
    def go():
        for w in warm:
            OPS[w](7)
        s = Scheduler([lambda: OPS[x](PAIR_NUMBERS[0]),
                       lambda: OPS[y](PAIR_NUMBERS[1])], plan, opcodes)
        s.run()
        return [s.results, s.where]
    results, where = forked(go)
    for i, name in enumerate((x, y)):
        if norm(results[i]) != want[i]:
            fail("%s and %s in two threads, switching at %s: %s gives\n  %s\n"
                 "  and alone\n  %s", x, y, ", ".join(where), name,
                 differing(results[i], want[i]), differing(
                     want[i], results[i]))


def differing(a, b):
    if a[0] == b[0] == "ok" and isinstance(a[1], list):
        return [u for u, v in zip(a[1], b[1]) if norm(u) != norm(v)]
    return a


# operations with something to fill when they are first used
FILLING = ["list", "placeholder", "select", "hash", "declare", "lazy", "auto",
           "subtype", "construct", "types", "own"]


def tasks_C31(tier):
    thorough = tier == "thorough"
    names = sorted(OPS)
    tasks = []

    def one(ctx, x, y, most, warm=(), opcodes=False, part=(0, 1)):
        a = alone(x, 0, most, warm, opcodes)
        b = alone(y, 1, 1, warm, opcodes)
        want = [a[0], b[0]]
        if not part[0]:
            # one after the other
            ctx.run((x, y, warm), check_pair, x, y, [], want, warm, opcodes)
        for k in a[1][part[0]::part[1]]:
            ctx.state()
            ctx.run((x, y, warm, k), check_pair, x, y, [k], want, warm,
                    opcodes)
            ctx.step()
        ctx.bound(operations=len(names), preemptions=1)

    def two(ctx, x, y, i, n, opcodes=False):
        a, b = alone(x, 0, 1, (), opcodes), alone(y, 1, 1, (), opcodes)
        for k in a[1][i::n]:
            ctx.state()
            for m in b[1]:
                ctx.run((x, y, (), k, m), check_pair, x, y, [k, m],
                        [a[0], b[0]], (), opcodes)
                ctx.step()
        ctx.bound(preemptions=2)

    for x in names:
        for y in names:
            most = (2 if x == y else 1) if not thorough else \
                None if x == y else 3
            n = 1 if not thorough else 8 if x == y else 4
            for i in range(n):
                tasks.append(("first use/%s/%s/%d" % (x, y, i),
                              lambda ctx, x=x, y=y, most=most, i=i, n=n:
                              one(ctx, x, y, most, (), False, (i, n))))
        tasks.append(("again/%s" % x, lambda ctx, x=x: one(
            ctx, x, x, 3 if thorough else 1, (x,))))
        if x in FILLING and (thorough or x not in ("own", "declare")):
            for i in range(4):
                tasks.append(("opcodes/%s/%d" % (x, i), lambda ctx, x=x, i=i:
                              one(ctx, x, x, 3 if thorough else 1, (), True,
                                  (i, 4))))
        if thorough and x in FILLING or x == "list":
            for i in range(16):
                tasks.append(("twice/%s/%d" % (x, i), lambda ctx, x=x, i=i:
                              two(ctx, x, x, i, 16)))
    if thorough:
        for x in FILLING:
            for y in FILLING:
                if x != y:
                    tasks.append(("opcodes/%s/%s" % (x, y),
                                  lambda ctx, x=x, y=y:
                                  one(ctx, x, y, 1, (), True)))
        for x in ("placeholder", "lazy", "list"):
            for i in range(16):
                tasks.append(("opcodes twice/%s/%d" % (x, i),
                              lambda ctx, x=x, i=i:
                              two(ctx, x, x, i, 16, True)))

    def order(task):
        # where races are most likely first
        kind, x, y = (task[0].split("/") + ["", ""])[:3]
        return (kind != "opcodes", kind != "first use" or x != y,
                x not in FILLING and y not in FILLING)
    tasks.sort(key=order)
    return tasks
