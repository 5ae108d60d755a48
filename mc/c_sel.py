"""C18 field selectors on objects, C19 selector paths, C20 field selectors as
sequences, C21 multi-field selectors, C22 patching and deleting through them.

The reference model works on trees (see universe.py) and on plain lists of
selector elements; it knows the declared types from SCHEMA below."""
import copy
import itertools

from normalize import (
    DictCollection, DictProperty, FieldSelector, JsonListProperty,
    JsonProperty, JsonRecord, ListCollection, ListProperty,
    MultiFieldSelector, Property, Record, ROProperty,
)
from normalize.coll import Collection, dict_of, list_of
from normalize.exc import FieldSelectorException
from normalize.property import LazyProperty

from . import universe as U
from .core import attempt, expect, fail, subsets
from .universe import D, L, R, build, is_tree, observe, same, show, thaw, vary


class SLeaf(Record):
    a = Property(isa=int)
    b = Property()


class SReq(Record):
    x = Property(isa=int, required=True)
    y = Property()


class SSub(Record):
    leaf = Property(isa=SLeaf)
    kids = ListProperty(of=SLeaf)
    t = Property(isa=int)


class SNList(ListCollection):
    itemtype = SLeaf
    name = Property()


class SRoot(Record):
    name = Property(isa=str)
    leaf = Property(isa=SLeaf)
    kids = ListProperty(of=SLeaf)
    tags = ListProperty(of=int)
    m = DictProperty(of=SLeaf)
    n = DictProperty(of=int)
    nl = Property(isa=SNList)
    u = Property()


class SDeep(Record):
    sub = Property(isa=SSub)
    subs = ListProperty(of=SSub)
    md = DictProperty(of=SSub)
    ll = ListProperty(of=list_of(SLeaf))
    dl = DictProperty(of=list_of(SLeaf))


class SReqs(Record):
    rq = Property(isa=SReq)
    rqs = ListProperty(of=SReq)
    rqd = DictProperty(of=SReq)


class SOpt(Record):
    ro = ROProperty(isa=int)
    v1 = Property(isa=int, v1_none=None)
    lz = LazyProperty(isa=str, default=lambda: "lz")
    de = Property(isa=int, default=7)


class SJLeaf(JsonRecord):
    a = JsonProperty(isa=int)
    b = Property()


class SJ(JsonRecord):
    leaf = Property(isa=SJLeaf, json_name="L")
    js = JsonListProperty(of=SJLeaf)
    b = JsonProperty()


SCHEMA = {
    "SLeaf": dict(a="int", b="any"),
    "SReq": dict(x="int", y="any"),
    "SSub": dict(leaf=("R", "SLeaf"), kids=("L", "SLeafList"), t="int"),
    "SRoot": dict(name="str", leaf=("R", "SLeaf"), kids=("L", "SLeafList"),
                  tags=("L", "intList"), m=("D", "SLeafMap"),
                  n=("D", "intMap"), nl=("L", "SNList"), u="any"),
    "SDeep": dict(sub=("R", "SSub"), subs=("L", "SSubList"),
                  md=("D", "SSubMap"), ll=("L", "SLeafListList"),
                  dl=("D", "SLeafListMap")),
    "SReqs": dict(rq=("R", "SReq"), rqs=("L", "SReqList"),
                  rqd=("D", "SReqMap")),
    "SOpt": dict(ro="int", v1="int", lz="str", de="int"),
    "SJLeaf": dict(a="int", b="any"),
    "SJ": dict(leaf=("R", "SJLeaf"), js=("L", "SJLeafList"), b="any"),
    "SNList": dict(name="any"),
}
ITEM = {
    "SLeafList": ("R", "SLeaf"), "intList": "int", "SLeafMap": ("R", "SLeaf"),
    "intMap": "int", "SNList": ("R", "SLeaf"), "SSubList": ("R", "SSub"),
    "SSubMap": ("R", "SSub"), "SLeafListList": ("L", "SLeafList"),
    "SLeafListMap": ("L", "SLeafList"), "SReqList": ("R", "SReq"),
    "SReqMap": ("R", "SReq"), "SJLeafList": ("R", "SJLeaf"),
}
REQUIRED = {"SReq": {"x"}}
READ_ONLY = {"SOpt": {"ro"}}
V1 = {"SOpt": {"v1"}}
LAZY = {"SOpt": {"lz": "lz"}}
DEFAULTS = {"SOpt": {"de": 7}}

U.LAZY["SOpt"] = LAZY["SOpt"]
U.DEFAULTS["SOpt"] = DEFAULTS["SOpt"]
for _t in (SLeaf, SReq, SSub, SNList, SRoot, SDeep, SReqs, SOpt, SJLeaf, SJ):
    U.TYPES[_t.__name__] = _t
for _t, _slots in sorted(SCHEMA.items()):
    for _s, _k in sorted(_slots.items()):
        if isinstance(_k, tuple):
            U.TYPES.setdefault(
                _k[1], U.TYPES[_t].properties[_s].valuetype)
U.TYPES.setdefault("SLeafList", list_of(SLeaf))
for _n in ITEM:
    assert _n in U.TYPES, _n


class Missing(Exception):
    """the place does not exist (because of a key, or of an attribute)"""
    def __init__(self, why):
        self.why = why


class Refused(Exception):
    """the value cannot be written there"""


class Mismatch(Exception):
    """not covered: an index into something that has none, etc"""


# -- the model ---------------------------------------------------------------

def step(t, s):
    if is_tree(t):
        if t[0] == "R":
            if not isinstance(s, str):
                raise Mismatch()
            return slot(t, s)
        if t[0] == "L":
            if isinstance(s, str):
                return slot(t, s)
            if -len(t[2]) <= s < len(t[2]):
                return t[2][s]
            raise Missing("key")
        if s in t[2]:
            return t[2][s]
        raise Missing("key")
    if isinstance(t, list):
        if isinstance(s, str):
            raise Missing("attr")
        if -len(t) <= s < len(t):
            return t[s]
        raise Missing("key")
    if isinstance(t, dict):
        if s in t:
            return t[s]
        raise Missing("key")
    if not isinstance(s, str):
        raise Mismatch()
    raise Missing("attr")


def slot(t, s):
    T = t[1]
    if s in t[-1]:
        return t[-1][s]
    if s in LAZY.get(T, ()):
        return LAZY[T][s]
    if s in V1.get(T, ()):
        return None
    raise Missing("attr")


def items(t):
    if is_tree(t) and t[0] != "R":
        t = t[2]
    if isinstance(t, list):
        return t
    if isinstance(t, dict):
        return list(t.values())
    raise Mismatch()


def m_get(t, sel):
    for i, s in enumerate(sel):
        if s is None:
            rv, failed = [], None
            all_ = items(t)
            n = 0
            for x in all_:
                try:
                    rv.append(m_get(x, sel[i + 1:]))
                except Missing as e:
                    failed = failed or e
                    n += 1
                    rv.append(None)
            if n and n == len(all_):
                raise failed
            return rv
        t = step(t, s)
    return t


def kind_at(t, s):
    """the declared kind of a place"""
    if is_tree(t):
        if t[0] == "R" or isinstance(s, str) and t[0] == "L":
            if s not in SCHEMA.get(t[1], {}):
                raise Missing("attr")
            return SCHEMA[t[1]][s]
        return ITEM[t[1]]
    return "any"


def conv(kind, v):
    """what a place of that kind holds after being given the value"""
    if kind == "any":
        return thaw(v)
    if kind == "int":
        if isinstance(v, int):
            return v
        try:
            return int(v)
        except Exception:
            raise Refused()
    if kind == "str":
        return v if isinstance(v, str) else str(v)
    k, T = kind
    if is_tree(v):
        if v[0] == k and v[1] == T:
            return U.complete(thaw(v))
        raise Mismatch()
    if k == "R":
        if isinstance(v, dict):
            return new(kind, v)
        raise Refused()
    if k == "L" and isinstance(v, list):
        return ("L", T, [conv(ITEM[T], x) for x in v], {})
    if k == "D" and isinstance(v, dict):
        return ("D", T, {n: conv(ITEM[T], x) for n, x in v.items()}, {})
    raise Refused()


def new(kind, slots=()):
    """a new object with the given slots; refused if required ones lack"""
    k, T = kind
    got = dict(DEFAULTS.get(T, {}))
    for n in slots:
        if n not in SCHEMA.get(T, {}):
            raise Refused()
        got[n] = conv(SCHEMA[T][n], slots[n])
    if not REQUIRED.get(T, set()) <= set(got):
        raise Refused()
    if k == "R":
        return ("R", T, got)
    return (k, T, [] if k == "L" else {}, got)


def m_assign(t, s, v):
    """one write (of a place on the object itself)"""
    kind = kind_at(t, s)
    if is_tree(t):
        if t[0] == "R" or t[0] == "L" and isinstance(s, str):
            if s in READ_ONLY.get(t[1], ()):
                raise Missing("attr")
            if v is None and s in V1.get(t[1], ()):
                t[-1].pop(s, None)
                return
            t[-1][s] = conv(kind, v)
            return
        t = t[2]
    if isinstance(t, list):
        if isinstance(s, str):
            raise Missing("attr")
        v = conv(kind, v)
        if not -len(t) <= s < len(t):
            raise Missing("key")
        t[s] = v
    elif isinstance(t, dict):
        t[s] = conv(kind, v)
    else:
        raise Mismatch()


def m_put(t, sel, v):
    if len(sel) == 1:
        if sel[0] is None:
            if is_tree(t) and t[0] == "L":
                if not isinstance(v, list):
                    raise Mismatch()
                t[2][:] = [conv(ITEM[t[1]], x) for x in v]
            elif isinstance(t, list) and isinstance(v, list):
                t[:] = thaw(v)
            else:
                raise Mismatch()
        else:
            m_assign(t, sel[0], v)
    elif sel[0] is None:
        for x in items(t):
            m_put(x, sel[1:], v)
    else:
        m_put(step(t, sel[0]), sel[1:], v)


def m_post(t, sel, v):
    n = len(sel)
    done = False
    for i, s in enumerate(sel[:-1]):
        if s is None:
            return sum([m_post(x, sel[i + 1:], v) for x in items(t)])
        try:
            child = step(t, s)
        except Missing as e:
            kind = kind_at(t, s)
            if kind == "any":
                raise
            if not isinstance(kind, tuple):
                raise Mismatch()
            slots = {}
            if i == n - 2 and sel[-1] in SCHEMA.get(kind[1], {}):
                slots = {sel[-1]: v}
            if t[0] == "L" and not isinstance(s, str) and s != len(t[2]):
                raise e
            child = new(kind, slots)
            done = bool(slots)
            if t[0] == "R" or t[0] == "L" and isinstance(s, str):
                t[-1][s] = child
            elif t[0] == "L":
                t[2].append(child)
            else:
                t[2][s] = child
        t = child
    if not done:
        c = t[2] if is_tree(t) and t[0] == "L" else t
        if isinstance(c, list) and isinstance(sel[-1], int) and \
                sel[-1] == len(c):
            c.append(conv(kind_at(t, sel[-1]), v))
        else:
            m_put(t, sel[-1:], v)
    return 1


def m_delete(t, sel):
    for i, s in enumerate(sel[:-1]):
        if s is None:
            all_ = items(t)
            failed, n = None, 0
            for x in all_:
                try:
                    m_delete(x, sel[i + 1:])
                except Missing as e:
                    failed = failed or e
                    n += 1
            if n and n == len(all_):
                raise failed
            return
        t = step(t, s)
    s = sel[-1]
    if s is None:
        c = t[2] if is_tree(t) and t[0] != "R" else t
        if not isinstance(c, (list, dict)):
            raise Mismatch()
        c.clear()
    elif is_tree(t) and (t[0] == "R" or t[0] == "L" and isinstance(s, str)):
        if not isinstance(s, str):
            raise Mismatch()
        if s in t[-1]:
            if s in REQUIRED.get(t[1], ()) or s in READ_ONLY.get(t[1], ()):
                raise Refused()
            del t[-1][s]
    else:
        c = t[2] if is_tree(t) else t
        if isinstance(c, list) and not isinstance(s, str):
            if not -len(c) <= s < len(c):
                raise Missing("key")
            del c[s]
        elif isinstance(c, dict):
            if s not in c:
                raise Missing("key")
            del c[s]
        elif isinstance(s, str):
            pass        # there is nothing to delete
        else:
            raise Mismatch()


# -- enumeration -------------------------------------------------------------

def elements(kind, ops):
    if kind == "any":
        return ["q", "z", 0, 1, None]
    if not isinstance(kind, tuple):
        return ["zz"] if ops else []
    k, T = kind
    rv = sorted(SCHEMA.get(T, {}))
    if k == "R":
        return rv + ["zz"]
    if k == "L":
        return [0, 1, 2, -1, None] + rv + ["zz"]
    return ["k", "j", 2, None]


def next_kind(kind, s):
    if kind == "any" or not isinstance(kind, tuple):
        return "any" if kind == "any" else None
    k, T = kind
    if isinstance(s, str) and k in ("R", "L"):
        return SCHEMA.get(T, {}).get(s)
    return ITEM.get(T)


def selectors(kind, maxlen, any_depth=2, depth=0):
    """every selector that makes sense for an object of that kind, and those
    leading astray at the last element"""
    if maxlen <= 0 or kind is None:
        return
    if kind == "any" and depth >= any_depth:
        return
    for s in elements(kind, True):
        yield [s]
        if s == "zz":
            continue
        nk = next_kind(kind, s)
        for rest in selectors(nk, maxlen - 1, any_depth,
                              depth + 1 if kind == "any" else 0):
            yield [s] + rest


l0, l1, l2 = R("SLeaf"), R("SLeaf", a=1), R("SLeaf", a=2, b="x")
lu = R("SLeaf", b={"q": [1]})
lN = R("SLeaf", b=None)


def sel_trees(tname, most):
    if tname == "SRoot":
        al = dict(
            name=["n"], leaf=[l0, l2],
            kids=[L("SLeafList"), L("SLeafList", [l1]),
                  L("SLeafList", [l0, l2]), L("SLeafList", [l1, l0, l2])],
            tags=[L("intList"), L("intList", [1, 2])],
            m=[D("SLeafMap"), D("SLeafMap", {"k": l1}),
               D("SLeafMap", {"k": l2, 2: l0})],
            n=[D("intMap"), D("intMap", {"k": 1, 2: 3})],
            nl=[L("SNList", [l1, l2], name="N"), L("SNList", [l1])],
            u=[None, "q", 0, [1, {"q": 2}], {"q": [1, 2], 0: "z"},
               {"q": []}, {"q": {}}, [[]]],
        )
    elif tname == "SDeep":
        s0, s1 = R("SSub"), R("SSub", leaf=l1, t=3)
        s2 = R("SSub", kids=L("SLeafList", [l1, l2]))
        al = dict(
            sub=[s0, s1, s2],
            subs=[L("SSubList"), L("SSubList", [s1]),
                  L("SSubList", [s2, s0]), L("SSubList", [s0, s2, s1])],
            md=[D("SSubMap", {"k": s1, "j": s2}), D("SSubMap", {"k": s0})],
            ll=[L("SLeafListList"),
                L("SLeafListList", [L("SLeafList", [l1, l2]),
                                    L("SLeafList")])],
            dl=[D("SLeafListMap"), D("SLeafListMap", {
                "k": L("SLeafList", [l1]), "j": L("SLeafList")}),
                D("SLeafListMap", {"k": L("SLeafList")})],
        )
    elif tname == "SReqs":
        q1, q2 = R("SReq", x=1), R("SReq", x=2, y="q")
        al = dict(rq=[q1, q2],
                  rqs=[L("SReqList"), L("SReqList", [q1]),
                       L("SReqList", [q2, q1])],
                  rqd=[D("SReqMap"), D("SReqMap", {"k": q1, "j": q2})])
    elif tname == "SOpt":
        al = dict(ro=[1], v1=[5], lz=["other"], de=[8])
        most = 3
    elif tname == "SJ":
        j0, j1 = R("SJLeaf"), R("SJLeaf", a=1, b="x")
        al = dict(leaf=[j0, j1],
                  js=[L("SJLeafList"), L("SJLeafList", [j1]),
                      L("SJLeafList", [j0, j1])],
                  b=[None, "b"])
    elif tname in ("SLeafList", "SNList"):
        for n in range(0, 4):
            for c in itertools.product([l0, l1, l2][:2 if n > 2 else 3],
                                       repeat=n):
                yield L(tname, list(c))
        if tname == "SNList":
            yield L(tname, [l1], name="N")
        return
    elif tname == "SLeafMap":
        for n in range(0, 3):
            for ks in itertools.permutations(["k", 2, "j"], n):
                for c in itertools.product([l0, l1, l2], repeat=n):
                    yield D(tname, dict(zip(ks, c)))
        return
    for s in vary(al, most):
        yield R(tname, **s)


def root_kind(tname):
    t = U.TYPES[tname]
    return ("L" if issubclass(t, ListCollection) else
            "D" if issubclass(t, DictCollection) else "R", tname)


ROOTS = ("SRoot", "SDeep", "SReqs", "SOpt", "SJ", "SLeafList", "SNList",
         "SLeafMap")


def final_kind(kind, sel):
    for s in sel:
        if kind is None:
            return None
        kind = next_kind(kind, s)
    return kind


def values_for(kind, sel):
    """values to write at a place"""
    k = final_kind(kind, sel)
    if sel[-1] is None:
        inner = values_for(kind, sel[:-1] + [0])
        return [[]] + [[v] for v in inner[:2]] + [list(inner[:2])]
    if k == "int":
        return [9, "6", True, "no"]
    if k == "str":
        return ["new", 5]
    if k == "any" or k is None:
        return ["new", None, [1], {"q": 1}]
    K, T = k
    if K == "R":
        if T == "SReq":
            return [R("SReq", x=9), {"x": 9, "y": 1}, {"y": 1}, 5]
        full = R(T, **{n: 9 for n, kk in SCHEMA[T].items() if kk == "int"})
        return [full, {}, {n: "8" for n, kk in SCHEMA[T].items()
                           if kk == "int"}, 5]
    inner = ITEM[T]
    one = 9 if inner == "int" else new(
        inner, {"x": 9} if inner[1] == "SReq" else {})
    if K == "L":
        return [("L", T, [one], {}), [], [one, one], 5]
    return [("D", T, {"k": one}, {}), {}, {"j": one}, "no"]


def norm(t):
    return U.strip_lazy(t)


def check_same(o, want, what, *args):
    got = norm(observe(o))
    if not same(got, norm(want)):
        fail("%s: the object is %s, expected %s", what % args, show(got),
             show(norm(want)))


def m_value(x):
    """values with objects, as built"""
    if is_tree(x):
        return build(x)
    if isinstance(x, list):
        return [m_value(v) for v in x]
    if isinstance(x, dict):
        return {k: m_value(v) for k, v in x.items()}
    return x


def obs_value(x):
    return observe(x)


def model_op(t, op):
    """-> (expected tree, expected outcome)"""
    t2 = thaw(t)
    kind = op[0]
    try:
        if kind == "put":
            m_put(t2, op[1], op[2])
            return t2, ("ok", None)
        if kind == "post":
            return t2, ("ok", m_post(t2, op[1], op[2]))
        if kind == "delete":
            m_delete(t2, op[1])
            return t2, ("ok", None)
    except Missing as e:
        return t2, ("missing", e.why)
    except Refused:
        return t2, ("refused", None)
    raise AssertionError(op)


def real_op(o, op, fs=None):
    fs = fs or FieldSelector(op[1])
    if op[0] == "delete":
        return attempt(fs.delete, o)
    return attempt(getattr(fs, op[0]), o, m_value(op[2]))


REFUSALS = (TypeError, ValueError, AttributeError, FieldSelectorException)


def created_on_the_way(t, t2, sel):
    """whether the failing write had begun to create things"""
    return not same(t, t2)


def apply_op(o, t, op):
    """Run one operation on the real object and on the model, compare, and
    return the tree after it, or None if the state is not specified."""
    fs = FieldSelector(op[1])
    want, outcome = model_op(t, op)
    got = real_op(o, op, fs)
    expect(fs.selectors == op[1], "%s changed the selector to %r", op[0],
           fs.selectors)
    what = "%s%r of %s" % (op[0], tuple(op[1:]), show(t))
    if outcome[0] == "ok":
        expect(got[0] == "ok", "%s: %r", what, got[1])
        if op[0] == "post":
            expect(got[1] == outcome[1], "%s returned %r, expected %r", what,
                   got[1], outcome[1])
        check_same(o, want, "%s", what)
        return want
    expect(got[0] == "exc", "%s succeeded: %s", what, show(observe(o)))
    if outcome[0] == "missing":
        ok = FieldSelectorException
        if op[0] == "post" and outcome[1] == "key":
            ok = (ok, ValueError)       # set out of order
    else:
        ok = REFUSALS
    expect(isinstance(got[1], ok), "%s: %r", what, got[1])
    if None in op[1] or not same(t, want):
        # some of the items may have been changed, or some of the records on
        # the way may have been created
        return None
    check_same(o, t, "after the failing %s", what)
    return t


def check_get(o, t, sel):
    fs = FieldSelector(sel)
    got = attempt(fs.get, o)
    orn = attempt(fs.get_or_none, o)
    what = "get(%r) of %s" % (sel, show(t))
    try:
        want = m_get(t, sel)
    except Missing:
        expect(got[0] == "exc" and isinstance(got[1], FieldSelectorException),
               "%s: %r", what, got[1])
        expect(orn == ("ok", None), "get_or_none(%r) of %s: %r", sel, show(t),
               orn[1])
        return False
    expect(got[0] == "ok", "%s: %r", what, got[1])
    expect(same(norm(observe(got[1])), norm(want)),
           "%s: %r, expected %r", what, got[1], want)
    expect(orn[0] == "ok" and same(norm(observe(orn[1])), norm(want)),
           "get_or_none(%r) of %s: %r", sel, show(t), orn[1])
    expect(fs.selectors == list(sel), "get changed the selector")
    return True


def mismatched(f, *a):
    try:
        f(*a)
    except Mismatch:
        return True
    except (Missing, Refused):
        pass
    return False


def tasks_C18(tier):
    thorough = tier == "thorough"
    tasks = []

    def single(tname, part, parts):
        def run(ctx):
            kind = root_kind(tname)
            maxlen = 4 if thorough or tname == "SDeep" else 3
            sels = list(selectors(kind, maxlen))
            ts = [U.complete(t) for t in sel_trees(tname, 2 if thorough or
                                                   tname != "SDeep" else 1)]
            ctx.bound(selectors=len(sels), trees=len(ts), maxlen=maxlen)

            def get_case(t, sel):
                o = build(t)
                check_get(o, t, sel)
                check_same(o, t, "get(%r)", sel)
                ctx.step(2)

            def op_case(t, op):
                o = build(t)
                after = apply_op(o, t, op)
                ctx.step()
                if after is not None:
                    if not mismatched(m_get, after, op[1]):
                        check_get(o, after, op[1])
                        ctx.step()
            for i, t in enumerate(ts):
                if i % parts != part:
                    continue
                ctx.state()
                for sel in sels:
                    if not mismatched(m_get, t, sel):
                        ctx.run((show(t), "get", sel), get_case, t, sel)
                    ops = [("delete", sel)]
                    if "zz" not in sel:
                        for v in values_for(kind, sel):
                            ops.append(("put", sel, v))
                            if -1 not in sel:
                                ops.append(("post", sel, v))
                    elif len(sel) > 1 and "zz" in sel[:-1]:
                        ops.append(("put", sel, 1))
                        ops.append(("post", sel, 1))
                    for op in ops:
                        if not mismatched(model_op, t, op):
                            ctx.run((show(t), op), op_case, t, op)
        return run

    def astray(tname):
        """selectors whose place cannot exist, however long they go on"""
        def run(ctx):
            kind = root_kind(tname)
            ts = [U.complete(t) for t in sel_trees(tname, 1)]
            sels = []
            for sel in selectors(kind, 2 if not thorough else 3):
                if sel[-1] == "zz":
                    for rest in (["a"], [0], [None], ["a", 0], ["zz", "b"]):
                        sels.append(sel + rest)

            def case(t, sel):
                o = build(t)
                check_get(o, t, sel)
                for op in (("put", sel, 1), ("post", sel, 1),
                           ("delete", sel)):
                    if mismatched(model_op, t, op):
                        continue
                    o = build(t)
                    apply_op(o, t, op)
                    ctx.step()
            for t in ts:
                ctx.state()
                for sel in sels:
                    if not mismatched(m_get, t, sel):
                        ctx.run((show(t), sel), case, t, sel)
        return run

    def history(tname, part, parts):
        def run(ctx):
            kind = root_kind(tname)
            ts = [U.complete(t) for t in sel_trees(tname, 1)]
            depth = 3 if thorough and tname != "SDeep" else 2
            sels = [s for s in selectors(kind, 3, 1)
                    if "zz" not in s and -1 not in s]
            if not thorough or depth == 3:
                sels = [s for s in sels if 1 not in s and "j" not in s and
                        "z" not in s or s[-1] == 1]
            gets = [s for s in selectors(kind, 3, 1)]
            events = []
            for sel in sels:
                vals = values_for(kind, sel)
                events.append(("delete", sel))
                events.append(("post", sel, vals[0]))
                if len(sel) < 3:
                    events.append(("put", sel, vals[0]))
            if depth == 3:
                events = [e for e in events if len(e[1]) < 3 or
                          e[0] == "post"]
            ctx.bound(events=len(events), depth=depth)

            def play(t, ops, check):
                o = build(t)
                for op in ops:
                    t = apply_op(o, t, op)
                    ctx.step()
                    if t is None:
                        return None
                if check:
                    for sel in gets:
                        if not mismatched(m_get, t, sel):
                            check_get(o, t, sel)
                            ctx.step()
                return t

            def go(t0, t, ops):
                for ev in events:
                    if mismatched(model_op, t, ev):
                        continue
                    h = ops + [ev]
                    t2 = ctx.run((show(t0), h), play, t0, h, len(h) < 2)
                    if ctx.stop:
                        return
                    if t2 is not None and len(h) < depth and \
                            not same(t2, t):
                        go(t0, t2, h)
            for i, t in enumerate(ts):
                if depth == 3 and i % 3:
                    continue
                if i // (3 if depth == 3 else 1) % parts != part:
                    continue
                ctx.state()
                go(t, t, [])
        return run
    for tname in ROOTS:
        parts = {"SRoot": 6, "SDeep": 6}.get(tname, 1)
        if thorough:
            parts *= 2
        for p in range(parts):
            tasks.append(("single/%s/%d" % (tname, p),
                          single(tname, p, parts)))
            tasks.append(("history/%s/%d" % (tname, p),
                          history(tname, p, parts)))
        tasks.append(("astray/" + tname, astray(tname)))
    return tasks


# -- C19 ---------------------------------------------------------------------

SPECIAL = "'\"\\[].|()* \n\u00e9a1_-"


def keys(maxlen):
    for n in range(0, maxlen + 1):
        for c in itertools.product(SPECIAL, repeat=n):
            yield "".join(c)


PLAIN = ["a", "b1", "_", "A_b", "for", "\u00e9t\u00e9", "1", "-1", "*", "",
         "a.b", "a'b", "[0]", "['a']", "\\", "\\'", "'", "a b", "a|b", "(a)",
         "\n", "a\\", "]", ".a", "\t", "\r\n", "\u2028", "\u0663", "a\u0301"]
OTHER = [0, 1, -1, 10, None]


def roundtrip_fs(sel):
    fs = FieldSelector(sel)
    path = fs.path
    back = FieldSelector.from_path(path)
    expect(type(path) is str, "path is %r", path)
    expect(back.selectors == sel and [type(x) for x in back.selectors] ==
           [type(x) for x in sel],
           "the path of %r is %s, which reads back as %r", sel, path,
           back.selectors)
    expect(back == fs and not back != fs, "not equal after reading back")
    expect(back.path == path, "path %r changed to %r", path, back.path)
    expect(fs.selectors == sel, "changed to %r", fs.selectors)
    return path


def tasks_C19(tier):
    thorough = tier == "thorough"
    tasks = []

    def one_key(ctx):
        n = 4 if thorough else 3
        ctx.bound(alphabet=len(SPECIAL), key_length=n)
        seen = {}

        def case(sel):
            path = roundtrip_fs(sel)
            expect(path not in seen, "%r and %r both have the path %s", sel,
                   seen.get(path), path)
            seen[path] = sel
            ctx.step(3)
        for k in keys(n):
            ctx.state()
            ctx.run([k], case, [k])
        for o in OTHER:
            ctx.run([o], case, [o])

    def sequences(part, parts):
        def run(ctx):
            seen = {}

            def case(sel):
                path = roundtrip_fs(sel)
                expect(path not in seen, "%r and %r both have the path %s",
                       sel, seen.get(path), path)
                seen[path] = sel
                ctx.step(3)
            al = PLAIN + OTHER
            if not thorough:
                small = ["a", "1", "", "a'b", "['a']", "\\", ".a", "a.b", "|",
                         "(", "*", 0, -1, None]
            else:
                small = al
            ctx.bound(alphabet=len(al), length=4 if not thorough else 3)
            i = 0
            for n in range(0, 3):
                for c in itertools.product(al, repeat=n):
                    i += 1
                    ctx.state()
                    if i % parts == part:
                        ctx.run(list(c), case, list(c))
            for n in ((3, 4) if not thorough else (3,)):
                for c in itertools.product(small, repeat=n):
                    i += 1
                    if i % parts == part and (n == 3 or "a'b" in c):
                        ctx.state()
                        ctx.run(list(c), case, list(c))
        return run

    def multi(part, parts):
        def run(ctx):
            al = ["a", "x'y", "(", "|", ")", "a.b", "\\", "1", "", 0, 2, -1,
                  None]
            pool = [[x] for x in al]
            pool += [list(c) for c in itertools.product(al, repeat=2)]
            small = ["a", "(", "|", "'", 0, None]
            pool3 = [[x] for x in small] + [
                list(c) for n in (2, 3)
                for c in itertools.product(small, repeat=n)]
            ctx.bound(alphabet=len(al), pool=len(pool), pool3=len(pool3))

            def case(sets):
                m = MultiFieldSelector(*sets)
                path = m.path
                expect(type(path) is str, "path is %r", path)
                back = MultiFieldSelector.from_path(path)
                a = sorted((x.selectors for x in m), key=repr)
                b = sorted((x.selectors for x in back), key=repr)
                expect(a == b, "the path of %r is %s, which reads back as %r",
                       a, path, b)
                expect(bool(back) == bool(m) and back.complete == m.complete,
                       "completeness is lost")
                ctx.step(2)

            def sets_of(pool, n, k0):
                for i, c in enumerate(itertools.combinations(pool, n)):
                    if (i + k0) % parts == part and trie_of(c) is not None:
                        ctx.state()
                        ctx.run(list(c), case, list(c))
            for n in (0, 1, 2):
                sets_of(pool, n, n)
            sets_of(pool3 if thorough else pool3[:6 + 36], 3, 1)
            if thorough:
                sets_of(pool3, 2, 1)
                tiny = [[x] for x in ("a", "(", 0)] + [
                    list(c) for n in (2, 3)
                    for c in itertools.product(("a", "(", 0), repeat=n)]
                sets_of(tiny, 4, 1)
        return run

    def branches(alphabets, prefix, part=0, parts=1):
        """every tree with these keys at its levels"""
        def trees(level):
            if level == len(alphabets):
                return [[[]]]
            below = [None] + trees(level + 1)
            out = [[[]]] if level else []
            for c in itertools.product(below, repeat=len(alphabets[level])):
                t = [[k] + p for k, s in zip(alphabets[level], c)
                     if s is not None for p in s]
                if t:
                    out.append(t)
            return out

        def run(ctx):
            def case(sets):
                m = MultiFieldSelector(*sets)
                back = MultiFieldSelector.from_path(m.path)
                a = sorted((x.selectors for x in m), key=repr)
                b = sorted((x.selectors for x in back), key=repr)
                expect(a == b == sorted(sets, key=repr), "the path of %r is "
                       "%s, which reads back as %r", sets, m.path, b)
                ctx.step(2)
            for i, t in enumerate(trees(0)):
                if i % parts == part:
                    ctx.state()
                    ctx.run(t, case, [prefix + p for p in t])
            ctx.bound(depth=len(prefix) + len(alphabets))
        return run

    abc, ab = ["a", "(", "c"], ["a", "|"]
    for prefix in ([], ["z"], [None], [1, "x y"]):
        for name, levels in (("3,3", [abc, abc]), ("2,2,2", [ab, ab, ab]),
                             ("0-2,2", [[0, 1, -1], ab])):
            tasks.append(("branches/%s/%r" % (name, prefix), branches(
                levels, prefix)))
    for p in range(4):
        tasks.append(("branches/3,2,2/%d" % p, branches(
            [abc, ab, ab], [], p, 4)))
    if thorough:
        for p in range(16):
            tasks.append(("branches/2,2,2,2/%d" % p, branches(
                [ab, ab, ab, ab], [], p, 16)))
            tasks.append(("branches/2,3,2/%d" % p, branches(
                [ab, abc, ab], [], p, 16)))
    tasks.append(("one-key", one_key))
    for p in range(4):
        tasks.append(("sequences/%d" % p, sequences(p, 4)))
    for p in range(8):
        tasks.append(("multi/%d" % p, multi(p, 8)))
    return tasks


# -- C20 ---------------------------------------------------------------------

ELS = ["a", "b", "", 0, 1, -1, None]
BAD = [1.5, b"x", ("a",), ["a"], {"a": 1}, object, 2j, frozenset()]


def seqs(al, n):
    for k in range(0, n + 1):
        for c in itertools.product(al, repeat=k):
            yield list(c)


def m_cmp(a, b):
    """-1, 0, 1, or None if the elements cannot be compared"""
    for x, y in zip(a, b):
        if x == y:
            continue
        if type(x) is not type(y):
            return None
        return -1 if x < y else 1
    return (len(a) > len(b)) - (len(a) < len(b))


def tasks_C20(tier):
    thorough = tier == "thorough"
    tasks = []

    def accept(ctx):
        def good(sel):
            for src in (list(sel), tuple(sel), iter(sel),
                        FieldSelector(sel)):
                fs = FieldSelector(src)
                expect(fs.selectors == sel, "FieldSelector(%r) is %r", sel,
                       fs.selectors)
                expect(len(fs) == len(sel), "its length is %r", len(fs))
                ctx.step()

        def bad(sel):
            for src in (list(sel), tuple(sel)):
                r = attempt(FieldSelector, src)
                expect(r[0] == "exc" and
                       isinstance(r[1], (ValueError, TypeError)),
                       "FieldSelector(%r): %r", sel, r[1])
                r = attempt(lambda: FieldSelector(["a"]) + src)
                expect(r[0] == "exc" and
                       isinstance(r[1], (ValueError, TypeError)),
                       "adding %r: %r", sel, r[1])
                ctx.step(2)

        def bad_single(x):
            fs = FieldSelector(["a"])
            for f, okay in ((fs.add_property, lambda: isinstance(x, str)),
                            (fs.add_index, lambda: isinstance(x, int))):
                r = attempt(f, x)
                want = okay()
                expect((r[0] == "ok") == want, "adding %r: %r", x, r[1])
                if want:
                    expect(fs.selectors == ["a", x], "it is %r",
                           fs.selectors)
                    fs.selectors.pop()
                else:
                    expect(isinstance(r[1], (ValueError, TypeError)),
                           "adding %r: %r", x, r[1])
                expect(fs.selectors == ["a"], "it is %r", fs.selectors)
                ctx.step()
        for sel in seqs(ELS, 3):
            ctx.state()
            ctx.run(sel, good, sel)
        for sel in seqs(["a", 0, None], 2):
            for i in range(len(sel) + 1):
                for b in BAD:
                    s = sel[:i] + [b] + sel[i:]
                    ctx.run(("bad", s), bad, s)
        for x in ELS + BAD:
            ctx.run(("single", repr(x)), bad_single, x)

    def sequence(ctx):
        n = 4 if thorough else 3

        def case(sel):
            fs = FieldSelector(sel)
            expect(list(fs) == sel, "list() gives %r", list(fs))
            for i in range(-len(sel) - 2, len(sel) + 2):
                a, b = attempt(lambda: fs[i]), attempt(lambda: sel[i])
                expect(a[0] == b[0] and (
                    a[1] == b[1] if a[0] == "ok" else
                    isinstance(a[1], IndexError)), "[%d] is %r", i, a[1])
                ctx.step()
            rng = [None] + list(range(-len(sel) - 1, len(sel) + 2))
            for i in rng:
                for j in rng:
                    for k in (None, 1, 2, -1, -2):
                        r = fs[i:j:k]
                        expect(type(r) is FieldSelector and
                               r.selectors == sel[i:j:k],
                               "[%r:%r:%r] is %r", i, j, k, r)
                        expect(r.selectors is not fs.selectors,
                               "the slice is the same sequence")
                        r.add_index(7)
                        expect(fs.selectors == sel,
                               "extending the slice changed it to %r", fs)
                        ctx.step()
        for sel in seqs(ELS, n):
            ctx.state()
            ctx.run(sel, case, sel)

    def pairs(part, parts):
        def run(ctx):
            pool = list(seqs(ELS, 3 if thorough else 2))
            if not thorough:
                pool += [["a", x, y] for x in ("a", 0, None)
                         for y in ("b", 1, None)]
            ctx.bound(pool=len(pool))

            def case(a, b):
                fa, fb = FieldSelector(a), FieldSelector(b)
                eq = a == b
                expect((fa == fb) is eq and (fa != fb) is not eq,
                       "%r == %r: %r", a, b, fa == fb)
                if eq:
                    for fc in (fb, fb[:], FieldSelector(fb), fb + [],
                               FieldSelector().extend(fb)):
                        expect(hash(fc) == hash(fa), "the hash of %r is not "
                               "that of an equal one", fc)
                    expect({fa: 1}.get(fb) == 1 and fb in {fa}, "%r is not "
                           "found", fb)
                else:
                    expect({fa: 1}.get(fb) is None and len({fa, fb}) == 2,
                           "%r is found as %r", fb, fa)
                for other in (fb, b, tuple(b)):
                    r = fa + other
                    expect(type(r) is FieldSelector and
                           r.selectors == a + b, "%r + %r is %r", fa, other,
                           r)
                    r.add_index(7)
                    expect(fa.selectors == a and fb.selectors == b,
                           "extending the sum changed an operand")
                    expect(fa.startswith(other) is (a[:len(b)] == b),
                           "%r starts with %r: %r", fa, other,
                           fa.startswith(other))
                if len(b) == 1:
                    x = b[0]
                    if x is not None:
                        r = fa + x
                        expect(r.selectors == a + [x], "%r + %r is %r", fa,
                               x, r)
                    expect(fa.startswith(x) is (a[:1] == [x]),
                           "%r starts with %r: %r", fa, x, fa.startswith(x))
                c = m_cmp(a, b)
                ops = {"<": lambda: fa < fb, "<=": lambda: fa <= fb,
                       ">": lambda: fa > fb, ">=": lambda: fa >= fb}
                want = {"<": lambda: c < 0, "<=": lambda: c <= 0,
                        ">": lambda: c > 0, ">=": lambda: c >= 0}
                for op in ops:
                    r = attempt(ops[op])
                    if c is None:
                        expect(r[0] == "exc" and isinstance(r[1], TypeError),
                               "%r %s %r: %r", a, op, b, r[1])
                    else:
                        expect(r == ("ok", want[op]()), "%r %s %r: %r", a,
                               op, b, r[1])
                expect(fa.selectors == a and fb.selectors == b,
                       "comparing changed an operand")
                r = fa.extend(fb)
                expect(r is fa and fa.selectors == a + b,
                       "extended to %r", fa)
                expect(fb.selectors == b, "the other changed to %r", fb)
                fb.add_property("zz")
                expect(fa.selectors == a + b, "it shares the sequence")
                ctx.step(10)
            i = 0
            for a in pool:
                for b in pool:
                    i += 1
                    if i % parts == part:
                        ctx.state()
                        ctx.run((a, b), case, a, b)
        return run

    def sorting(ctx):
        n = 4 if thorough else 3

        def case(sels):
            fss = [FieldSelector(s) for s in sels]
            got = [f.selectors for f in sorted(fss)]
            want = sorted(sels)
            expect(got == want, "sorted: %r", got)
            ctx.step()

        def total(a, b, c):
            fa, fb, fc = map(FieldSelector, (a, b, c))
            if fa <= fb and fb <= fc:
                expect(fa <= fc, "not transitive: %r %r %r", a, b, c)
            if fa < fb and fb < fc:
                expect(fa < fc, "not transitive: %r %r %r", a, b, c)
            ctx.step()
        for pool in (
            [["k", i] for i in (0, 1, 2, 10, -1)] + [["k"]],
            [["k", i, "a"] for i in (0, 2, 10)] +
            [["k", i, "b"] for i in (0, 2, 10)],
            [[], ["a"], ["b"], ["a", "a"], ["a", "b"], ["ab"], ["", "a"],
             [""]],
            [[], [None], [None, "a"], [None, "a", 0], [None, "b"]],
            [[], [0], [1], [10], [2], [-1], [0, "a"], [0, "a", 1]],
        ):
            for k in range(0, n + 1):
                for c in itertools.permutations(pool, k):
                    ctx.state()
                    ctx.run(list(c), case, list(c))
            for c in itertools.product(pool, repeat=3):
                ctx.run(("total", c), total, *c)

    def aliases(ctx):
        """histories of operations on a growing set of selectors"""
        depth = 4 if thorough else 3

        def ops(n):
            for i in range(n):
                yield ("copy", i)
                yield ("property", i)
                yield ("index", i)
                yield ("full", i)
                yield ("slice", i)
                for j in range(n):
                    yield ("extend", i, j)
                    yield ("add", i, j)

        def play(hist):
            src = ["a", 0]
            model = [["a", 0], []]
            fss = [FieldSelector(src), FieldSelector()]
            for op in hist:
                f, m = fss[op[1]], model[op[1]]
                if op[0] == "copy":
                    fss.append(FieldSelector(f))
                    model.append(list(m))
                elif op[0] == "property":
                    f.add_property("p")
                    m.append("p")
                elif op[0] == "index":
                    f.add_index(3)
                    m.append(3)
                elif op[0] == "full":
                    f.add_full_collection()
                    m.append(None)
                elif op[0] == "slice":
                    fss.append(f[:1])
                    model.append(m[:1])
                elif op[0] == "extend":
                    expect(f.extend(fss[op[2]]) is f, "extend")
                    m.extend(list(model[op[2]]))
                else:
                    fss.append(f + fss[op[2]])
                    model.append(m + model[op[2]])
                ctx.step()
                expect([x.selectors for x in fss] == model,
                       "after %r: %r, expected %r", op,
                       [x.selectors for x in fss], model)
                expect(src == ["a", 0], "the list it was made of changed")
            return len(fss)

        def go(hist):
            n = ctx.run(hist, play, hist)
            ctx.state()
            if n is None or len(hist) >= depth:
                return
            for op in ops(n):
                go(hist + [op])
        go([])
        ctx.bound(history=depth)

    def source_list(ctx):
        def case(sel):
            src = list(sel)
            fs = FieldSelector(src)
            src.append("zz")
            expect(fs.selectors == sel, "it shares the list: %r", fs)
            other = FieldSelector(fs)
            other.add_index(1)
            expect(fs.selectors == sel, "a copy shares the list: %r", fs)
            src2 = list(sel)
            fs2 = FieldSelector(["q"]) + src2
            fs2.add_index(3)
            expect(src2 == sel, "adding changed the list to %r", src2)
            ctx.step(3)
        for sel in seqs(ELS, 2):
            ctx.state()
            ctx.run(sel, case, sel)

    tasks.append(("accept", accept))
    tasks.append(("sequence", sequence))
    for p in range(8 if thorough else 4):
        tasks.append(("pairs/%d" % p, pairs(p, 8 if thorough else 4)))
    tasks.append(("sorting", sorting))
    tasks.append(("aliases", aliases))
    tasks.append(("source-list", source_list))
    return tasks


# -- C21, C22: sets of selectors ---------------------------------------------

def trie_of(sels):
    """{element: trie or True}, or True for everything, or None if a level
    has a wildcard and something else"""
    if any(len(s) == 0 for s in sels):
        if any(len(s) and s[0] is not None for s in sels):
            return None
        return {None: True}
    rv = {}
    for s in sels:
        rv.setdefault(s[0], []).append(s[1:])
    out = {}
    if None in rv and len(rv) > 1:
        return None
    for h, tails in rv.items():
        if any(not t for t in tails):
            out[h] = True
        else:
            sub = trie_of(tails)
            if sub is None:
                return None
            out[h] = sub
    return out


def paths_of(trie):
    for h, sub in trie.items():
        if sub is True:
            yield (h,)
        else:
            for p in paths_of(sub):
                yield (h,) + p


def sub_trie(trie, sel):
    """what is selected below a place: a trie, True (everything) or None"""
    for s in sel:
        if trie is True or trie == {None: True}:
            return True
        if None in trie:
            s = None
        if s not in trie:
            return None
        trie = trie[s]
    return True if trie == {None: True} else trie


def m_select(t, trie):
    """the copy of an object with the selected parts"""
    if trie is True:
        return thaw(t)
    if is_tree(t) and t[0] == "R":
        if trie == {None: True}:
            return thaw(t)
        if any(not isinstance(h, str) for h in trie):
            raise Mismatch()
        slots = dict(DEFAULTS.get(t[1], {}))
        for h, sub in trie.items():
            try:
                v = slot(t, h)
            except Missing:
                continue
            if v is None and (sub is not True or h not in t[-1]):
                continue
            slots[h] = m_select(v, sub)
        if not REQUIRED.get(t[1], set()) <= set(slots):
            raise Mismatch()
        return ("R", t[1], slots)
    c = t[2] if is_tree(t) else t
    if isinstance(c, list):
        if any(isinstance(h, str) for h in trie):
            raise Mismatch()
        if None in trie:
            c = [m_select(x, trie[None]) for x in c]
        else:
            if any(h < 0 for h in trie):
                raise Mismatch()
            c = [m_select(c[h], sub) for h, sub in sorted(trie.items())
                 if h < len(c)]
        return ("L", t[1], c, {}) if is_tree(t) else c
    if isinstance(c, dict):
        if None in trie:
            c = {k: m_select(v, trie[None]) for k, v in c.items()}
        else:
            c = {h: m_select(c[h], sub) for h, sub in trie.items() if h in c}
        return ("D", t[1], c, {}) if is_tree(t) else c
    raise Mismatch()


def wreck(v):
    """change everything that can be changed in an object"""
    if isinstance(v, dict):
        for x in v.values():
            wreck(x)
        v["wrecked"] = 1
    elif isinstance(v, list):
        for x in v:
            wreck(x)
        v.append("wrecked")
    elif isinstance(v, Record):
        if isinstance(v, ListCollection):
            for x in list(v):
                wreck(x)
            v[:] = []
        elif isinstance(v, DictCollection):
            for x in list(v.values()):
                wreck(x)
            v.clear()
        for k in list(vars(v)):
            if k in type(v).properties:
                wreck(getattr(v, k))
                attempt(delattr, v, k)


MPOOL = {
    "SRoot": [["name"], ["leaf"], ["leaf", "a"], ["leaf", "b"], ["kids"],
              ["kids", 0], ["kids", 1], ["kids", None], ["kids", 0, "a"],
              ["kids", 2, "b"], ["kids", None, "a"], ["kids", None, "b"],
              ["tags", 0], ["tags", 1], ["tags", None], ["m"], ["m", "k"],
              ["m", 2], ["m", None, "a"], ["m", "k", "b"], ["n", "k"],
              ["n", None], ["nl"], ["nl", 0], ["nl", None, "b"], ["u"],
              ["u", "q"], ["u", "q", 1], ["u", 0], ["zz"]],
    "SDeep": [["sub"], ["sub", "leaf"], ["sub", "leaf", "a"],
              ["sub", "kids", 0], ["sub", "kids", 1, "b"],
              ["sub", "kids", None, "a"], ["subs", 0], ["subs", 0, "t"],
              ["subs", 1, "kids", 1], ["subs", 1, "kids", 0, "a"],
              ["subs", None, "leaf"], ["subs", None, "kids", None, "a"],
              ["md", "k", "leaf"], ["md", None, "t"], ["md", "j", "kids", 0],
              ["md", "k"], ["ll", 0, 1], ["ll", 0, 0, "a"],
              ["ll", None, 0], ["ll", 1], ["dl", "k", 0], ["dl", None, None],
              ["dl", "j"]],
    "SOpt": [["ro"], ["v1"], ["lz"], ["de"]],
    "SJ": [["leaf"], ["leaf", "a"], ["leaf", "b"], ["js"], ["js", 0],
           ["js", 1, "a"], ["js", None, "b"], ["b"]],
    "SLeafList": [[0], [1], [2], [0, "a"], [1, "b"], [None], [None, "a"],
                  [None, "b"]],
    "SLeafMap": [["k"], [2], ["j"], ["k", "a"], [2, "b"], [None],
                 [None, "a"], [None, "b"]],
}


def canon_paths(paths):
    return sorted(map(list, paths), key=repr)


def tasks_C21(tier):
    thorough = tier == "thorough"
    tasks = []

    def selection(tname):
        """what sets of selectors select, in every order and grouping"""
        def run(ctx):
            pool = MPOOL[tname]
            probes = []
            for s in pool:
                for p in (s, s[:-1], s + ["a"], s + [0], s + [None]):
                    if p not in probes:
                        probes.append(p)
            if tname == "SRoot":
                # selectors which cover others
                pool = pool + [["kids", None, "zz"]]
            heads = ["kids", "leaf", "zz", 0, 1, None]

            def check(m, trie, how):
                want = canon_paths(paths_of(trie))
                got = canon_paths(x.selectors for x in m)
                expect(all(type(x) is FieldSelector for x in m),
                       "enumerates %r", list(m))
                expect(got == want, "%s selects %r, expected %r", how, got,
                       want)
                expect(bool(m) is bool(trie), "its truth is %r", bool(m))
                for p in probes:
                    below = sub_trie(trie, p)
                    covered = below is True
                    for q in (FieldSelector(p), list(p), tuple(p)):
                        r = q in m
                        expect(r is covered, "%r in %s: %r", p, how, r)
                        r = m[q]
                        if below is None:
                            expect(r is None, "%s[%r] is %r", how, p, r)
                        else:
                            expect(type(r) is MultiFieldSelector,
                                   "%s[%r] is %r", how, p, r)
                            w = [[None]] if covered else canon_paths(
                                paths_of(below))
                            g = canon_paths(x.selectors for x in r)
                            expect(g == w and r.complete is (w == [[None]]),
                                   "%s[%r] is %r", how, p, r)
                    ctx.step(2)
                for h in heads:
                    want_in = None in trie or h in trie
                    expect((h in m) is want_in, "%r in %s: %r", h, how,
                           h in m)
                    r = m[h]
                    below = sub_trie(trie, [h])
                    if below is None:
                        expect(r is None, "%s[%r] is %r", how, h, r)
                    else:
                        w = [[None]] if below is True else canon_paths(
                            paths_of(below))
                        g = canon_paths(x.selectors for x in r)
                        expect(g == w, "%s[%r] is %r", how, h, r)
                    ctx.step(2)
                expect((any in m) is bool(trie), "any in %s", how)

            def case(sels):
                trie = trie_of(sels)
                if trie is None:
                    r = attempt(MultiFieldSelector, *sels)
                    expect(r[0] == "exc" and isinstance(r[1], ValueError),
                           "%r: %r", sels, r[1])
                    return
                builds = []
                for perm in itertools.permutations(sels):
                    builds.append(("%r" % (perm,),
                                   MultiFieldSelector(*perm)))
                    fss = [FieldSelector(s) for s in perm]
                    builds.append(("FS %r" % (perm,),
                                   MultiFieldSelector(*fss)))
                    ctx.step(2)
                    if len(perm) == 2:
                        a, b = perm
                        builds.append(("grouped %r" % (perm,),
                                       MultiFieldSelector(
                            MultiFieldSelector(a), MultiFieldSelector(b))))
                        builds.append(("grouped %r" % (perm,),
                                       MultiFieldSelector(
                            MultiFieldSelector(a), b)))
                        ctx.step(2)
                    if len(perm) == 3:
                        a, b, c = perm
                        for x, y in ((a, b), (b, c)):
                            if trie_of([x, y]) is None:
                                break
                        else:
                            builds.append(("grouped %r" % (perm,),
                                           MultiFieldSelector(
                                MultiFieldSelector(a, b), c)))
                            builds.append(("grouped %r" % (perm,),
                                           MultiFieldSelector(
                                a, MultiFieldSelector(b, c))))
                            builds.append(("grouped %r" % (perm,),
                                           MultiFieldSelector(
                                MultiFieldSelector(a),
                                MultiFieldSelector(b, c))))
                            ctx.step(3)
                want = canon_paths(paths_of(trie))
                for i, (how, m) in enumerate(builds):
                    if i and not thorough:
                        got = canon_paths(x.selectors for x in m)
                        expect(got == want, "%s selects %r, expected %r",
                               how, got, want)
                        expect(m.complete is (want == [[None]]),
                               "%s: complete is %r", how, m.complete)
                    else:
                        check(m, trie, how)
                # selectors given are not changed or aliased
                fss = [FieldSelector(s) for s in sels]
                m = MultiFieldSelector(*fss)
                for f in fss:
                    f.add_property("zz")
                got = canon_paths(x.selectors for x in m)
                expect(got == want, "changing a selector changed it to %r",
                       got)
                for x in m:
                    x.add_index(0)
                got = canon_paths(x.selectors for x in m)
                expect(got == want, "changing what it enumerates changed it "
                       "to %r", got)
                # taking a part of it does not change it
                again = MultiFieldSelector(m)
                for p in probes[:12]:
                    m[FieldSelector(p)]
                got = canon_paths(x.selectors for x in m)
                expect(got == want, "subscripting changed it to %r", got)
                expect(canon_paths(x.selectors for x in again) == want,
                       "a copy of it selects something else")
            for n in range(0, 4):
                for c in itertools.combinations(pool, n):
                    if n == 3 and not thorough and tname == "SRoot" and \
                            len({s[0] for s in c}) == 3:
                        continue    # nothing in common
                    ctx.state()
                    ctx.run(list(c), case, list(c))
        return run

    def reading(tname, part, parts):
        def run(ctx):
            pool = MPOOL[tname]
            ts = [U.complete(t) for t in sel_trees(
                tname, 2 if thorough else 1)]
            most = 3 if thorough and tname != "SRoot" else 2
            ctx.bound(trees=len(ts), pool=len(pool), set_size=most)

            def case(t, sels, trie):
                want = m_select(t, trie)
                o = build(t)
                m = MultiFieldSelector(*sels)
                got = m.get(o)
                expect(type(got) is type(o), "it is a %r", type(got))
                expect(same(norm(observe(got)), norm(U.complete(want))),
                       "reading %s through %r gives %s, expected %s",
                       show(t), sels, show(norm(observe(got))),
                       show(norm(U.complete(want))))
                check_same(o, t, "reading through %r", sels)
                wreck(got)
                check_same(o, t, "changing what was read through %r", sels)
                got2 = m.get(o)
                expect(same(norm(observe(got2)), norm(U.complete(want))),
                       "the second read through %r gives %s", sels,
                       show(norm(observe(got2))))
                ctx.step(3)
            sets = []
            for n in range(0, most + 1):
                for c in itertools.combinations(pool, n):
                    trie = trie_of(c)
                    if trie is not None:
                        sets.append((list(c), trie))
            for i, t in enumerate(ts):
                if i % parts != part:
                    continue
                ctx.state()
                for sels, trie in sets:
                    if not mismatched(m_select, t, trie):
                        ctx.run((show(t), sels), case, t, sels, trie)
        return run

    def complete_(ctx):
        def case(tname, t):
            for m in (MultiFieldSelector([None]), MultiFieldSelector([]),
                      MultiFieldSelector.complete_mfs()):
                expect(m.complete, "not complete")
                o = build(t)
                got = m.get(o)
                if t[0] == "R":
                    want = t
                else:
                    want = t[:-1] + ({},)
                expect(same(norm(observe(got)), norm(want)),
                       "reading all of %s gives %s", show(t),
                       show(observe(got)))
                wreck(got)
                check_same(o, t, "changing the copy")
                ctx.step()
        for tname in MPOOL:
            for t in sel_trees(tname, 1):
                t = U.complete(t)
                ctx.state()
                ctx.run((show(t),), case, tname, t)
    for tname in MPOOL:
        tasks.append(("selection/" + tname, selection(tname)))
        parts = (8 if thorough else 2) if tname in ("SRoot", "SDeep") else 1
        for p in range(parts):
            tasks.append(("reading/%s/%d" % (tname, p), reading(
                tname, p, parts)))
    tasks.append(("complete", complete_))
    return tasks


# -- C22 ---------------------------------------------------------------------

def by_index(paths):
    return sorted(paths, key=lambda p: [
        x if isinstance(x, int) else -1 for x in p])


def m_patch(target, source, trie):
    vals = []
    for p in paths_of(trie):
        try:
            m_get(source, list(p))
        except Missing:
            pass
    for p in by_index(paths_of(trie)):
        try:
            vals.append((p, ("value", m_get(source, list(p)))))
        except Missing as e:
            if e.why == "key":
                raise
            vals.append((p, ("none", None)))
    for p, (what, v) in vals:
        if what == "none":
            try:
                m_delete(target, list(p))
            except Missing:
                pass
        else:
            try:
                m_post(target, list(p), v)
            except (Missing, Refused):
                raise Mismatch()    # cannot be created there


def lacks(t, sel):
    try:
        m_get(t, list(sel))
        return False
    except Missing:
        return True
    except Mismatch:
        return None


def expand(t, sel):
    """the concrete places a selector names"""
    if not sel:
        return [()]
    s = sel[0]
    if s is None:
        c = t[2] if is_tree(t) and t[0] != "R" else t
        if isinstance(c, dict):
            each = list(c)
        elif isinstance(c, list):
            each = range(len(c))
        else:
            raise Mismatch()
        rv = []
        for k in each:
            try:
                rv += [(k,) + p for p in expand(c[k], sel[1:])]
            except Missing:
                pass
        return rv
    return [(s,) + p for p in expand(step(t, s), sel[1:])]


def m_mdelete(t, trie, force):
    places = set()
    for p in paths_of(trie):
        try:
            m_get(t, list(p))
        except Missing:
            pass
    for p in paths_of(trie):
        if not force:
            m_get(t, list(p))
        try:
            places.update(expand(t, list(p)))
        except Missing:
            if not force:
                raise
    for p in sorted(places, key=lambda p: (len(p), [
            (isinstance(x, str), x) for x in p]), reverse=True):
        m_delete(t, list(p))


def tasks_C22(tier):
    thorough = tier == "thorough"
    tasks = []
    pools = dict(MPOOL)
    pools["SOpt"] = [["v1"], ["lz"], ["de"]]
    pools["SRoot"] = [s for s in MPOOL["SRoot"] if s != ["zz"]] + [
        ["kids", 1, "a"], ["tags", 2], ["kids", 2]]

    def patch(tname, part, parts):
        def run(ctx):
            # a wildcard only where the source has nothing at all
            pool = [s for s in pools[tname] if None not in s[-1:]]
            ts = [U.complete(t) for t in sel_trees(tname, 1)]
            if tname in ("SLeafList", "SLeafMap"):
                ts = [t for t in ts if len(t[2]) < 3]
            most = 3 if thorough and len(pool) < 12 else 2
            sets = []
            for n in range(0, most + 1):
                for c in itertools.combinations(pool, n):
                    trie = trie_of(c)
                    if trie is not None:
                        sets.append((list(c), trie))
            ctx.bound(trees=len(ts), sets=len(sets), set_size=most)

            def case(target, source, sels, trie, copying):
                want = thaw(target)
                fails = False
                try:
                    m_patch(want, source, trie)
                except Missing:
                    want = target
                    fails = True
                a, b = build(target), build(source)
                m = MultiFieldSelector(*sels)
                copied = []
                if copying == "function":
                    def copier(v):
                        copied.append(v)
                        return copy.deepcopy(v)
                    kw = {"copy": copier}
                elif copying:
                    kw = {"copy": True}
                else:
                    kw = {}
                r = attempt(m.patch, a, b, **kw)
                what = "patching %s from %s with %r" % (
                    show(target), show(source), sels)
                if fails:
                    expect(r[0] == "exc" and
                           isinstance(r[1], FieldSelectorException),
                           "%s: %r", what, r[1])
                else:
                    expect(r[0] == "ok", "%s: %r", what, r[1])
                check_same(a, want, "%s", what)
                check_same(b, source, "%s: the source", what)
                if copying:
                    wreck(a)
                    check_same(b, source, "changing the target after %s",
                               what)
                    if copying == "function" and not fails:
                        n = sum(1 for p in paths_of(trie)
                                if attempt(m_get, source, list(p))[0] ==
                                "ok")
                        expect(len(copied) == n, "the copy function was "
                               "called for %r, expected %d", copied, n)
                ctx.step(2)
            i = 0
            for ta in ts:
                for tb in ts:
                    i += 1
                    if i % parts != part:
                        continue
                    ctx.state()
                    for sels, trie in sets:
                        heads = set(trie)
                        if is_tree(ta) and ta[0] == "R" and len(heads) > 1 \
                                and not thorough and \
                                not (heads & (set(ta[2]) | set(tb[2]))):
                            continue
                        if any(None in p and lacks(tb, p) is not True
                               for p in sels):
                            continue
                        if mismatched(m_patch, thaw(ta), tb, trie):
                            continue
                        for copying in (False, True, "function"):
                            if copying == "function" and len(sels) > 1 and \
                                    not thorough:
                                continue
                            ctx.run((show(ta), show(tb), sels, copying),
                                    case, ta, tb, sels, trie, copying)
        return run

    def delete(tname, part, parts):
        def run(ctx):
            pool = pools[tname]
            ts = [U.complete(t) for t in sel_trees(
                tname, 2 if thorough or tname != "SDeep" else 1)]
            most = 3 if len(pool) < 12 or thorough and tname == "SDeep" \
                else 2
            sets = []
            for n in range(0, most + 1):
                for c in itertools.combinations(pool, n):
                    trie = trie_of(c)
                    if trie is not None:
                        sets.append((list(c), trie))
            if tname == "SRoot":
                for root in ("kids", "tags", "nl"):
                    for c in subsets([0, 1, 2], 3):
                        if len(c) > 1:
                            s = [[root, x] for x in c]
                            sets.append((s, trie_of(s)))
            ctx.bound(trees=len(ts), sets=len(sets), set_size=most)

            def case(t, sels, trie, force):
                want = thaw(t)
                fails = False
                try:
                    m_mdelete(want, trie, force)
                except Missing:
                    want = t
                    fails = True
                o = build(t)
                m = MultiFieldSelector(*sels)
                r = attempt(m.delete, o, force) if force else \
                    attempt(m.delete, o)
                what = "deleting %r from %s (force=%r)" % (
                    sels, show(t), force)
                if fails:
                    expect(r[0] == "exc" and
                           isinstance(r[1], FieldSelectorException),
                           "%s: %r", what, r[1])
                else:
                    expect(r[0] == "ok", "%s: %r", what, r[1])
                check_same(o, want, "%s", what)
                ctx.step()
            for i, t in enumerate(ts):
                if i % parts != part:
                    continue
                ctx.state()
                for sels, trie in sets:
                    for force in (False, True):
                        if not mismatched(m_mdelete, thaw(t), trie, force):
                            ctx.run((show(t), sels, force), case, t, sels,
                                    trie, force)
        return run
    for tname in pools:
        big = tname in ("SRoot", "SDeep")
        parts = 8 if big else 1
        for p in range(parts):
            tasks.append(("patch/%s/%d" % (tname, p), patch(tname, p,
                                                            parts)))
            tasks.append(("delete/%s/%d" % (tname, p), delete(tname, p,
                                                              parts)))
    return tasks
