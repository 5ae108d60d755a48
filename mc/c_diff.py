"""C23-C27: comparing objects, against a reference model of comparison.

The model computes, from the plain descriptions (trees) of two objects, every
list of differences a comparison may report.  Only approximate matching leaves
a choice (between equally good pairs), so everything else has one answer."""
import collections
import itertools
import json
import os
import subprocess
import sys
import unicodedata

from normalize import (
    DictCollection, DictProperty, ListCollection, ListProperty, Property,
    Record,
)
from normalize.coll import list_of
from normalize.diff import DiffOptions, diff, diff_iter
from normalize.selector import FieldSelector, MultiFieldSelector

from . import universe as U
from .core import VERIF, attempt, expect, fail, forked, subsets
from .universe import D, L, NOTHING, R, TYPES, build, complete, is_tree, show


# -- types for text and clean-ups --------------------------------------------

class Txt(Record):
    s = Property(isa=str)
    u = Property()
    n = Property(isa=int)


class TK(Record):
    k = Property(isa=str)
    v = Property(isa=str)
    ex = Property(extraneous=True)
    primary_key = [k]


def lower(v):
    return v.lower()


def spaced(v):
    """what is cleaned up here is cleaned up as text afterwards, too"""
    return v.lower().replace("x", " ")


def with_tail(self, v):
    return "%s/%s" % (v, getattr(self, "tail", ""))


def only_self(self):
    return len(self.size)


class Cln(Record):
    low = Property(isa=str, compare_as=spaced)
    got = Property(compare_as=with_tail)
    size = Property(compare_as=only_self)
    tail = Property(extraneous=True)


class UList(ListCollection):
    itemtype = str

    def compare_item_as(self, v):
        return spaced(v)


class UDict(DictCollection):
    itemtype = str

    def compare_item_as(self, v):
        return v.lower()


class TH(Record):
    t = Property(isa=Txt)
    ts = ListProperty(of=Txt)
    tk = ListProperty(of=TK)
    td = DictProperty(of=TK)
    tags = ListProperty(of=str)
    n = DictProperty(of=str)
    raw = Property()
    ul = Property(isa=UList)
    ud = Property(isa=UDict)
    cl = ListProperty(of=Cln)
    c1 = Property(isa=Cln)


class Bag(Record):
    """an item without a key, with collections inside"""
    tags = ListProperty(of=str)
    n = DictProperty(of=str)
    ts = ListProperty(of=Txt)
    td = DictProperty(of=TK)
    t = Property(isa=Txt)


class Bags(Record):
    bags = ListProperty(of=Bag)
    bm = DictProperty(of=Bag)


class KBag(Record):
    """an item with a key, with collections inside"""
    id = Property(isa=int)
    kids = ListProperty(of=TK)
    tags = ListProperty(of=str)
    ts = ListProperty(of=Txt)
    td = DictProperty(of=Txt)
    primary_key = [id]


class KBags(Record):
    kb = ListProperty(of=KBag)
    km = DictProperty(of=KBag)


class CKey(Record):
    """a record and a collection in the key"""
    t = Property(isa=Txt)
    tags = ListProperty(of=str)
    v = Property(isa=int)
    primary_key = [t, tags]


class CKeys(Record):
    ck = ListProperty(of=CKey)


def number(t):
    return getattr(t, "n", None)


def joined(d):
    return " ".join(sorted(d))


def numberless(t):
    return Txt(dict((k, v) for k, v in t.__dict__.items() if k != "n"))


class Mix(Record):
    """an item whose parts are compared as something else, or may be of
    several types"""
    x = Property(isa=(Txt, int))
    y = Property(isa=(TK, Txt))
    z = Property(isa=(list_of(str), str))
    r = Property(isa=Txt, compare_as=number)
    l = ListProperty(of=str, compare_as=len)
    j = DictProperty(of=str, compare_as=joined)
    q = Property(isa=Txt, compare_as=numberless)


class Mixes(Record):
    mx = ListProperty(of=Mix)
    md = DictProperty(of=Mix)
    m1 = Property(isa=Mix)


class MKey(Record):
    """such things as keys"""
    x = Property(isa=(Txt, int))
    r = Property(isa=Txt, compare_as=number)
    v = Property()
    primary_key = [x, r]


class MKeys(Record):
    mk = ListProperty(of=MKey)


for _t in (Txt, TK, Cln, UList, UDict, TH, Bag, Bags, KBag, KBags, CKey,
           CKeys, Mix, Mixes, MKey, MKeys):
    TYPES[_t.__name__] = _t
for _t in (TH, Bag, Bags, KBag, KBags, CKeys, Mix, Mixes, MKeys):
    for _p in _t.properties.values():
        _v = _p.valuetype
        if isinstance(_v, type) and issubclass(_v, (ListCollection, DictCollection)):
            assert TYPES.setdefault(_v.__name__, _v) is _v, _v
TYPES["Keyed2List"] = U.KNode.properties["k2"].valuetype


def decl(slots="", pk="", ex="", item=None, item_as=None, v1="",
         compare_as=None, **types):
    return dict(slots=sorted(slots.split()), pk=pk.split(),
                ex=set(ex.split()), item=item, item_as=item_as,
                v1=set(v1.split()), types=types,
                compare_as=compare_as or {})


DECL = dict(
    Leaf=decl("a b"), LeafSub=decl("a b c"),
    Keyed=decl("id name ex", "id", "ex"), Keyed2=decl("x y z", "x y"),
    Node=decl("leaf kids tags m n ex lz u", ex="ex", leaf="Leaf",
              kids="LeafList", tags="strList", m="LeafMap", n="intMap"),
    KNode=decl("ks kd k2 name", ks="KeyedList", kd="KeyedMap",
               k2="Keyed2List"),
    NList=decl("name n", ex="n", item="Leaf"),
    NDict=decl("name", item="Leaf"),
    LeafGList=decl("name", item="Leaf"),
    Holder=decl("gl nl nd nodes ll dl", gl="LeafGList", nl="NList",
                nd="NDict", nodes="NodeList", ll="intListList",
                dl="intListMap"),
    Opt=decl("ro v1 un lo de dt", v1="v1"),
    JLeaf=decl("a b unknown_json_keys", ex="unknown_json_keys"),
    JNode=decl("leaf jl jd d v1 plain ex ints unknown_json_keys",
               ex="ex unknown_json_keys", v1="v1", leaf="JLeaf",
               jl="JLeafList", jd="JLeafMap", plain="Leaf", ints="intList"),
    JLeafList=decl("unknown_json_keys", ex="unknown_json_keys",
                   item="JLeaf"),
    JLeafMap=decl("unknown_json_keys", ex="unknown_json_keys", item="JLeaf"),
    Txt=decl("s u n"), TK=decl("k v ex", "k", "ex"),
    Cln=decl("low got size tail", ex="tail", compare_as=dict(
        low=lambda o, v: spaced(v),
        got=lambda o, v: "%s/%s" % (v, o[2].get("tail", "")),
        size=lambda o, v: len(o[2]["size"]))),
    UList=decl(item_as=spaced), UDict=decl(item_as=lower),
    TH=decl("t ts tk td tags n raw ul ud cl c1", t="Txt", ts="TxtList",
            tk="TKList", td="TKMap", tags="strList", n="strMap", ul="UList",
            ud="UDict", cl="ClnList", c1="Cln"),
    Bag=decl("tags n ts td t", tags="strList", n="strMap", ts="TxtList",
             td="TKMap", t="Txt"),
    Bags=decl("bags bm", bags="BagList", bm="BagMap"),
    KBag=decl("id kids tags ts td", "id", kids="TKList", tags="strList",
              ts="TxtList", td="TxtMap"),
    KBags=decl("kb km", kb="KBagList", km="KBagMap"),
    CKey=decl("t tags v", "t tags", t="Txt", tags="strList"),
    CKeys=decl("ck", ck="CKeyList"),
    Mix=decl("x y z r l j q", compare_as=dict(
        r=lambda o, v: v[2].get("n"), l=lambda o, v: len(v[2]),
        j=lambda o, v: " ".join(sorted(v[2])),
        q=lambda o, v: R("Txt", **dict((k, x) for k, x in v[2].items()
                                       if k != "n"))),
        r="Txt", q="Txt", l="strList", j="strMap"),
    Mixes=decl("mx md m1", mx="MixList", md="MixMap", m1="Mix"),
    MKey=decl("x r v", "x r", compare_as=dict(
        r=lambda o, v: v[2].get("n")), r="Txt"),
    MKeys=decl("mk", mk="MKeyList"),
)
for _n in ("LeafList LeafMap KeyedList KeyedMap Keyed2List NodeList TxtList "
           "TxtMap TKList TKMap ClnList BagList BagMap KBagList KBagMap "
           "CKeyList MixList MixMap MKeyList").split():
    DECL[_n] = decl(item=_n[:-4] if _n.endswith("List") else _n[:-3])
for _n in "strList strMap intList intMap".split():
    DECL[_n] = decl()
for _n in "intListList intListMap".split():
    DECL[_n] = decl(item="intList")

OPTS = dict(ignore_ws=True, ignore_case=False, unicode_normal=True,
            unchanged=False, ignore_empty_slots=False,
            ignore_empty_items=False, extraneous=False, fuzzy_match=True,
            moved=False, recurse=False, compare_filter=None)


class Model(object):
    def __init__(self, **opts):
        self.__dict__.update(OPTS)
        for k in opts:
            assert k in OPTS, k
        self.__dict__.update(opts)
        f = self.compare_filter
        self.filt = None if f is None else frozenset(tuple(x) for x in f)

    # -- values --------------------------------------------------------------
    ws = staticmethod(lambda s: " ".join(s.split()))
    case = staticmethod(lambda s: s.upper())
    unf = staticmethod(lambda s: unicodedata.normalize("NFC", s))
    empty = staticmethod(
        lambda v: v is None or v == "" and isinstance(v, str))
    equal = staticmethod(lambda a, b: plain_equal(a, b))

    def text(self, s):
        if self.ignore_ws:
            s = self.ws(s)
        if self.ignore_case:
            s = self.case(s)
        if self.unicode_normal:
            s = self.unf(s)
        return s

    def value(self, v):
        if isinstance(v, str):
            v = self.text(v)
        if self.ignore_empty_slots and self.empty(v):
            return NOTHING
        return v

    def slot(self, o, s):
        """the value compared for a slot"""
        if o is NOTHING:
            return NOTHING
        d = DECL[o[1]]
        v = o[-1].get(s, U.LAZY.get(o[1], {}).get(s, NOTHING))
        if v is NOTHING:
            return self.slot_value(None, s) if s in d["v1"] else NOTHING
        if s in d["compare_as"]:
            v = d["compare_as"][s](o, v)
        return self.slot_value(v, s)

    def slot_value(self, v, s):
        return self.value(v)

    def item(self, coll, v, k):
        if is_tree(coll) and DECL[coll[1]]["item_as"]:
            v = DECL[coll[1]]["item_as"](v)
        return self.value(v)

    def item_id(self, v, filt):
        return self.ident(v, None, filt)

    # -- filters: a set of the paths still to go ------------------------------
    def sub(self, filt, path):
        for p in path:
            if not filt or () in filt:
                return filt
            filt = frozenset(t[1:] for t in filt
                             if t[0] is None or t[0] == p)
        return filt or None

    def hidden(self, path):
        return self.filt is not None and self.sub(self.filt, path) is None

    # -- identity of collection items ----------------------------------------
    def ident(self, o, tname=None, filt=None):
        d = DECL[tname or o[1]]
        pk = d["pk"]
        if pk and filt is not None and not all(
                self.sub(filt, (s,)) for s in pk):
            pk = ()
        if not pk and o[0] in "LD":
            kv = list(enumerate(o[2])) if o[0] == "L" else list(o[2].items())
            if filt is not None:
                kv = [(k, v) for k, v in kv if self.sub(filt, (k,))]
            if d["item"] is None:
                vals = [self.item(o, v, k) for k, v in kv]
                ids = tuple(v for v in vals if v is not NOTHING)
            else:
                ids = tuple(self.ident(
                    v, d["item"], None if filt is None else
                    self.sub(filt, (k,))) for k, v in kv)
            if o[0] == "D" and len(ids) > 1:
                return (frozenset(collections.Counter(ids).items()),)
            return ids
        rv = []
        for s in pk or d["slots"]:
            if s in d["ex"]:
                continue
            if not pk and filt is not None and not self.sub(filt, (s,)):
                continue
            v = self.slot(o, s)
            if v is NOTHING or v is None:
                v = None
            elif is_tree(v):
                v = self.ident(v, d["types"].get(s), None if filt is None else
                               self.sub(filt, (s,)))
            rv.append(v)
        return tuple(rv)

    # -- comparison: each function returns every acceptable list --------------
    def diff(self, a, b):
        return self.descend(a, b, (), ())

    def descend(self, a, b, fa, fb):
        v = a if a is not NOTHING else b
        if isinstance(v, tuple) and not is_tree(v) or isinstance(v, list):
            return self.scalars(a, b, fa, fb)
        if isinstance(v, dict):
            return self.scalars(a, b, fa, fb)
        if v[0] == "R":
            return self.record(a, b, fa, fb)
        return both(self.collection(a, b, fa, fb), self.record(a, b, fa, fb))

    def record(self, a, b, fa, fb):
        tname = (a if a is not NOTHING else b)[1]
        d = DECL[tname]
        out = [()]
        for s in d["slots"]:
            if s in d["ex"] and not self.extraneous:
                continue
            pa, pb = fa + (s,), fb + (s,)
            if self.hidden(pa):
                continue
            va, vb = self.slot(a, s), self.slot(b, s)
            na, nb = va is NOTHING, vb is NOTHING
            if na and nb:
                continue
            deep = comparable(va) or comparable(vb)
            if deep and not na and not nb and kind(va) == kind(vb):
                out = both(out, self.descend(va, vb, pa, pb))
            elif deep and na != nb and self.ignore_empty_slots:
                alts = []
                for inner in self.descend(va, vb, pa, pb):
                    if any(t != "none" for t, _, _ in inner):
                        alts.append((("added" if na else "removed",
                                      pa, pb),))
                    elif self.unchanged:
                        alts.append((("none", pa, pb),))
                    else:
                        alts.append(())
                out = both(out, alts)
            elif na or nb:
                out = both(out, [(("added" if na else "removed", pa, pb),)])
            elif kind(va) != kind(vb) and deep or not self.equal(va, vb):
                out = both(out, [(("modified", pa, pb),)])
            elif self.unchanged:
                out = both(out, [(("none", pa, pb),)])
        return out

    def pairs(self, coll, other):
        if coll is NOTHING:
            return []
        if is_tree(coll):
            coll = coll[2]
        if is_tree(other):
            other = other[2]
        if not isinstance(coll, dict):
            return list(enumerate(coll))
        keys = () if other is NOTHING else other
        return sorted(coll.items(), key=lambda kv: (
            kv[0] not in keys, type(kv[0]).__name__, kv[0]))

    def scalars(self, a, b, fa, fb):
        """lists and dictionaries of plain values: paired by value"""
        at = []
        for coll, other in ((a, b), (b, a)):
            seen = collections.Counter()
            m = {}
            for k, v in self.pairs(coll, other):
                if self.hidden(fa + (k,)):
                    continue
                v = self.item(coll, v, k)
                if v is NOTHING:
                    continue
                v = frozen(v)
                m[v, seen[v]] = k
                seen[v] += 1
            at.append(m)
        ma, mb = at
        out = []
        for v in ma:
            if v in mb:
                out.extend(self.kept(fa + (ma[v],), fb + (mb[v],),
                                     ma[v] != mb[v]))
        gone = [ma[v] for v in ma if v not in mb]
        new = [mb[v] for v in mb if v not in ma]
        for k in gone:
            if k in new:
                out.append(("modified", fa + (k,), fb + (k,)))
            else:
                out.append(("removed", fa + (k,), fb))
        for k in new:
            if k not in gone:
                out.append(("added", fa, fb + (k,)))
        return [tuple(out)]

    def kept(self, pa, pb, moved, inner=()):
        if moved and self.moved:
            return [("moved", pa, pb)]
        if self.unchanged:
            return [("none", pa, pb)]
        return []

    def collection(self, a, b, fa, fb):
        tname = (a if a is not NOTHING else b)[1]
        if DECL[tname]["item"] is None:
            return self.scalars(a, b, fa, fb)
        at = []
        for coll, other in ((a, b), (b, a)):
            seen = collections.Counter()
            m = {}
            for k, v in self.pairs(coll, other):
                f = None
                if self.filt is not None:
                    f = self.sub(self.filt, fa + (k,))
                    if f is None:
                        continue
                i = self.item_id(v, f)
                if self.ignore_empty_items and blank(i):
                    continue
                m[i, seen[i]] = (k, v)
                seen[i] += 1
            at.append(m)
        ma, mb = at
        out = [()]
        if self.recurse:
            ka, kb = dict(ma.values()), dict(mb.values())
            for k in ka:
                if k in kb:
                    out = both(out, self.items(ka[k], kb[k], fa + (k,),
                                               fb + (k,)))
                else:
                    out = both(out, [(("removed", fa + (k,), fb),)])
            for k in kb:
                if k not in ka:
                    out = both(out, [(("added", fa, fb + (k,)),)])
            return out
        if a is NOTHING or b is NOTHING:
            for k, v in list(ma.values()) + list(mb.values()):
                va, vb = (NOTHING, v) if a is NOTHING else (v, NOTHING)
                out = both(out, self.items(va, vb, fa + (k,), fb + (k,)))
            return out
        for i in ma:
            if i in mb:
                (k, v), (j, w) = ma[i], mb[i]
                out = both(out, self.items(v, w, fa + (k,), fb + (j,)))
                out = both(out, [tuple(self.kept(
                    fa + (k,), fb + (j,), k != j))])
        gone = [i for i in ma if i not in mb]
        new = [i for i in mb if i not in ma]
        alts = []
        for matched in self.matchings(gone, new) if self.fuzzy_match \
                else [()]:
            one = [()]
            for i, j in matched:
                (k, v), (l, w) = ma[i], mb[j]
                pa, pb = fa + (k,), fb + (l,)
                ends = []
                for inner in self.items(v, w, pa, pb):
                    if self.moved and k != l:
                        inner += (("moved", pa, pb),)
                    elif self.unchanged and all(
                            t == "none" for t, _, _ in inner):
                        inner += (("none", pa, pb),)
                    ends.append(inner)
                one = both(one, ends)
            ia, ib = {i for i, _ in matched}, {j for _, j in matched}
            rest = tuple(("removed", fa + (ma[i][0],), fb)
                         for i in gone if i not in ia)
            rest += tuple(("added", fa, fb + (mb[j][0],))
                          for j in new if j not in ib)
            alts.extend(both(one, [rest]))
        return both(out, alts)

    def items(self, a, b, fa, fb):
        if a is not NOTHING and b is not NOTHING and a[1] != b[1]:
            return [(("modified", fa, fb),)]
        return self.descend(a, b, fa, fb)

    def matchings(self, gone, new):
        """every outcome of repeatedly taking a best pair, the choice among
        equally good pairs being free"""
        scored = []
        for i in gone:
            for j in new:
                m, n = score(i[0], j[0])
                if m:
                    scored.append((m - n, i, j))
        results = set()

        def go(left, taken):
            if not left:
                results.add(frozenset(taken))
                return
            best = max(x[0] for x in left)
            for s, i, j in left:
                if s == best:
                    go([x for x in left if x[1] != i and x[2] != j],
                       taken + [(i, j)])
        go(scored, [])
        return [sorted(r, key=repr) for r in results]


def falsy(x):
    if isinstance(x, frozenset):
        return any(falsy(y) for y, n in x)
    if isinstance(x, tuple):
        return any(falsy(y) for y in x)
    return not x


def blank(x):
    if isinstance(x, frozenset):
        return all(blank(y) for y, n in x)
    if isinstance(x, tuple):
        return all(blank(y) for y in x)
    return x is NOTHING or x is None or isinstance(x, str) and x == ""


def score(i, j):
    short = min(len(i), len(j))
    match, no = 0, max(len(i), len(j)) - short
    for x, y in zip(i, j):
        if x != y:
            no += 1
        elif not falsy(x):
            match += 1
    return match, no


def both(xs, ys):
    rv = []
    seen = set()
    for x in xs:
        for y in ys:
            z = x + y
            if len(xs) > 1 or len(ys) > 1:
                c = canon(z)
                if c in seen:
                    continue
                seen.add(c)
            rv.append(z)
    return rv


def comparable(v):
    return isinstance(v, (list, tuple, dict))      # trees are tuples


def kind(v):
    return v[1] if is_tree(v) else type(v)


def plain_equal(a, b):
    return a == b


def frozen(v):
    try:
        hash(v)
        return v
    except TypeError:
        pass
    if isinstance(v, dict):
        return ("dict", frozenset((k, frozen(x)) for k, x in v.items()))
    if isinstance(v, set):
        return frozenset(v)
    if isinstance(v, tuple):
        return tuple(frozen(x) for x in v)
    return (type(v).__name__, tuple(frozen(x) for x in v))


def canon(diffs):
    return tuple(sorted(diffs, key=repr))


NAMES = {"UNCHANGED": "none", "ADDED": "added", "REMOVED": "removed",
         "MODIFIED": "modified", "MOVED": "moved"}


def real(a, b, **opts):
    out = []
    for x in diff_iter(a, b, **opts):
        out.append((NAMES[x.diff_type.display_name],
                    tuple(x.base.selectors), tuple(x.other.selectors)))
    return out


def check_model(model, ta, tb, got, what=""):
    want = model.diff(ta, tb)
    c = canon(got)
    if not any(c == canon(w) for w in want):
        w = canon(want[0])
        fail("%s%s vs %s: %s\n  reported and not expected: %s\n  expected and "
             "not reported: %s%s", what, show(ta), show(tb),
             {k: v for k, v in vars(model).items()
              if k in OPTS and v != OPTS[k]},
             minus(c, w), minus(w, c),
             "" if len(want) == 1 else " (of %d outcomes)" % len(want))
    return len(got)


def minus(a, b):
    return list((collections.Counter(a) - collections.Counter(b)).elements())


# -- independent notions -----------------------------------------------------

def place(t, path, clean=False):
    """the part of a tree a path names, or NOTHING; cleaned up as declared"""
    for p in path:
        if is_tree(t):

            if t[0] != "R" and (t[0] == "D" or isinstance(p, int)):
                c = t[2]
                if (0 <= p < len(c)) if t[0] == "L" else p in c:
                    ia = DECL[t[1]]["item_as"]
                    t = ia(c[p]) if clean and ia else c[p]
                    continue
            v = t[-1].get(p, U.LAZY.get(t[1], {}).get(p, NOTHING))
            if v is NOTHING and p in DECL[t[1]]["v1"]:
                v = None
            elif clean and v is not NOTHING and \
                    p in DECL[t[1]]["compare_as"]:
                v = DECL[t[1]]["compare_as"][p](t, v)
            t = v
        elif isinstance(t, (list, tuple)):
            if not (isinstance(p, int) and 0 <= p < len(t)):
                return NOTHING
            t = t[p]
        elif isinstance(t, dict):
            t = t.get(p, NOTHING)
        else:
            return NOTHING
        if t is NOTHING:
            return NOTHING
    return t


def check_places(ta, tb, got, what):
    """each difference names real places which do differ"""
    seen = set()
    for kind_, pa, pb in got:
        if kind_ in ("none", "moved"):
            continue
        expect((kind_, pa, pb) not in seen, "%s: reported twice: %s %s %s",
               what, kind_, pa, pb)
        seen.add((kind_, pa, pb))
        va, vb = place(ta, pa, True), place(tb, pb, True)
        if kind_ == "modified":
            expect(va is not NOTHING, "%s: base place %s does not exist",
                   what, pa)
            expect(vb is not NOTHING, "%s: other place %s does not exist",
                   what, pb)
            expect(not U.same(va, vb), "%s: modified %s / %s, but both are "
                   "%s", what, pa, pb, va)
        elif kind_ == "added":
            expect(vb is not NOTHING, "%s: added place %s does not exist",
                   what, pb)
            if pa and len(pa) == len(pb):
                expect(va is NOTHING, "%s: added %s is there before", what,
                       pa)
            else:
                expect(len(pb) == len(pa) + 1 and va is not NOTHING,
                       "%s: added %s to %s", what, pb, pa)
        else:
            expect(va is not NOTHING, "%s: removed place %s does not exist",
                   what, pa)
            if pb and len(pa) == len(pb):
                expect(vb is NOTHING, "%s: removed %s is still there", what,
                       pb)
            else:
                expect(len(pa) == len(pb) + 1 and vb is not NOTHING,
                       "%s: removed %s from %s", what, pa, pb)


def cleaned(v):
    """with the default clean-ups of text applied everywhere"""
    if isinstance(v, str):
        return unicodedata.normalize("NFC", " ".join(v.split()))
    if is_tree(v):
        c = DECL[v[1]]["compare_as"]
        ia = DECL[v[1]]["item_as"]
        slots = {k: cleaned(c[k](v, x) if k in c else x)
                 for k, x in v[-1].items()}
        if v[0] == "R":
            return v[:2] + (slots,)
        items = [(k, cleaned(ia(x) if ia else x))
                 for k, x in (enumerate(v[2]) if v[0] == "L"
                              else v[2].items())]
        return v[:2] + ([x for k, x in items] if v[0] == "L" else dict(items),
                        slots)
    return v


def alike(a, b, ordered):
    """equal up to nothing (ordered) or up to order and keys of items"""
    if is_tree(a) or is_tree(b):
        if not (is_tree(a) and is_tree(b)) or a[1] != b[1]:
            return False
        d = DECL[a[1]]
        lz = U.LAZY.get(a[1], {})
        for s in d["slots"]:
            if s in d["ex"]:
                continue
            va = a[-1].get(s, lz.get(s, None if s in d["v1"] else NOTHING))
            vb = b[-1].get(s, lz.get(s, None if s in d["v1"] else NOTHING))
            if va is NOTHING or vb is NOTHING:
                if va is not vb:
                    return False
            elif not alike(va, vb, ordered):
                return False
        if a[0] == "R":
            return True
        a, b = a[2], b[2]
    if isinstance(a, dict) and isinstance(b, dict):
        if ordered:
            return set(a) == set(b) and all(
                alike(v, b[k], True) for k, v in a.items())
        a, b = list(a.values()), list(b.values())
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        if len(a) != len(b):
            return False
        if ordered:
            return all(alike(x, y, True) for x, y in zip(a, b))
        return any(all(alike(x, y, False) for x, y in zip(a, p))
                   for p in itertools.permutations(b))
    return a == b


# -- objects -----------------------------------------------------------------

def texts(level):
    t = ["a b", " a  b", "A b", "", "\u00e9"]
    if level > 1:
        t += ["a\u00a0b\n", "e\u0301", "ab", "\u00c9", "   "]
    return t


def more_trees(tname, level):
    T = texts(level)
    if tname == "Txt":
        al = dict(s=T, u=T[:3] + [None, 0, False], n=[0, 1])
        for s in U.vary(al, 2 if level < 2 else 3, full=False):
            yield R("Txt", **s)
        return
    t0, t1, t2 = R("Txt"), R("Txt", s="a b"), R("Txt", s="a  b ", n=1)
    t3 = R("Txt", s="", u=None)
    t4 = R("Txt", s="A b", n=1)
    k1, k2, k3 = R("TK", k="p", v="x"), R("TK", k="p ", v="X"), \
        R("TK", k="q", v=" x", ex="e")
    k4, k0 = R("TK", k="P", v="x"), R("TK", v="x")
    if tname == "TH":
        c1, c2 = R("Cln", low="Ab", got="g", size="xx"), \
            R("Cln", low="aB ", got="g", tail="t")
        c3, c4 = R("Cln", size="yy"), R("Cln", low="ab", got="g ", tail="t")
        al = dict(
            t=[t0, t1, t2, t3, t4],
            ts=[L("TxtList", x) for x in (
                [], [t1], [t2], [t3], [t0], [t1, t4], [t4, t2], [t3, t0])],
            tk=[L("TKList", x) for x in (
                [], [k1], [k2], [k3], [k4], [k0], [k1, k3], [k3, k2],
                [k1, k2])],
            td=[D("TKMap", x) for x in (
                {}, {"a": k1}, {"b": k2}, {"a": k3}, {"a": k3, "b": k1},
                {"a": k1, "b": k3}, {"a": k0})],
            tags=[L("strList", x) for x in (
                [], ["a b"], [" a  b"], ["A b"], [""], ["", "a b"],
                ["a b", "c"], ["c", "A b"], ["a b", "a  b"],
                ["e\u0301"], ["\u00e9"])],
            n=[D("strMap", x) for x in (
                {}, {"x": "a b"}, {"x": "a  b"}, {"y": "a b"}, {"x": ""},
                {"x": "A b", "y": "c"}, {"y": "c", "x": "c"},
                {"x": "c", "y": ""}, {"x": "c", "y": "c", "z": "c"},
                {"z": "c"}, {"z": "c", "x": "c", "v": "c", "w": "c"})],
            raw=["a b", "a  b", None, "", ["a  b"], ["a b", "x"], [""],
                 ("a b",), {"k": "a b"}, {"k": "a  b", "l": None}, [], {},
                 [[1, {"x": 1, "y": 2}]], [[1, {"y": 2, "x": 1}]],
                 [{1, "p", "q"}], ({"k": 1}, {"k": [2]}), 0, False, 1.0, 1],
            ul=[L("UList", x) for x in ([], ["Ab"], ["aB "], ["x", "AB"],
                                      ["abxx"], ["a\u00a0x", "aX b"])],
            ud=[D("UDict", x) for x in (
                {}, {"k": "Ab"}, {"k": "aB"}, {"l": "ab", "k": "x"})],
            cl=[L("ClnList", x) for x in (
                [], [c1], [c2], [c3], [c1, c3], [c4, c1], [R("Cln")])],
            c1=[c1, c2, c3, c4],
        )
    elif tname == "Cln":
        al = dict(low=["Ab", "aB", "x", "abX"], got=["g", " g"],
                  size=["xx", "yy", "z"], tail=["t", "u"])
        level = max(level, 2)
    elif tname == "Bags":
        sl, sm = "strList", "strMap"
        bags = [
            R("Bag"), R("Bag", tags=L(sl, ["a  b"])),
            R("Bag", tags=L(sl, ["a b", "c"])),
            R("Bag", tags=L(sl, ["c", "a b"])),
            R("Bag", tags=L(sl, ["A b", ""]), n=D(sm, {"x": "1"})),
            R("Bag", n=D(sm, {"x": "1", "y": "2"})),
            R("Bag", n=D(sm, {"y": "2", "x": "1"})),
            R("Bag", n=D(sm, {"y": "1", "x": "2 "})),
            R("Bag", ts=L("TxtList", [t1, t0])),
            R("Bag", ts=L("TxtList", [t1])),
            R("Bag", ts=L("TxtList", [t0]), t=t3),
            R("Bag", td=D("TKMap", {"a": k1, "b": k3})),
            R("Bag", td=D("TKMap", {"b": k2, "a": k3}), t=t1),
            R("Bag", t=t2), R("Bag", tags=L(sl), n=D(sm)),
            R("Bag", tags=L(sl, [""]), t=t0),
        ]
        lists = [[]] + [[x] for x in bags]
        some = bags if level > 1 else bags[1:12:2]
        lists += [list(p) for p in itertools.permutations(some, 2)]
        for x in lists:
            yield R("Bags", bags=L("BagList", x))
        for x in lists[::3]:
            yield R("Bags", bm=D("BagMap", dict(zip("pq", x))))
        return
    elif tname == "KBags":
        sl = "strList"
        items = [
            R("KBag", id=1), R("KBag", id=2, tags=L(sl, ["a"])),
            R("KBag", id=1, tags=L(sl, ["a", "b"])),
            R("KBag", id=1, tags=L(sl, ["b", "a"])),
            R("KBag", id=1, kids=L("TKList", [k1, k3])),
            R("KBag", id=1, kids=L("TKList", [k3, k4])),
            R("KBag", id=2, kids=L("TKList", [k2, k0])),
            R("KBag", kids=L("TKList", [k1])),
        ]
        # items without keys, in items with keys which move
        deep = [
            R("KBag", id=1, ts=L("TxtList", [t2, t4])),
            R("KBag", id=1, ts=L("TxtList", [R("Txt", s="c", n=1), t2])),
            R("KBag", id=2, ts=L("TxtList", [t1])),
            R("KBag", id=2, td=D("TxtMap", {"a": t2, "b": t0})),
            R("KBag", id=2, td=D("TxtMap", {"b": t4, "c": t0})),
        ]
        lists = [[]] + [[x] for x in items]
        lists += [list(p) for p in itertools.product(items, repeat=2)]
        if level < 2:
            lists = lists[:9] + lists[9::3]
        lists += [list(p) for p in itertools.permutations(deep, 2)]
        for x in lists:
            yield R("KBags", kb=L("KBagList", x))
        for x in lists[::3]:
            yield R("KBags", km=D("KBagMap", dict(zip("pq", x))))
        return
    elif tname == "CKeys":
        sl = "strList"
        items = [
            R("CKey"), R("CKey", t=t1), R("CKey", t=t2, v=1),
            R("CKey", t=t1, tags=L(sl, ["a  b"]), v=1),
            R("CKey", t=t1, tags=L(sl, ["a b"]), v=2),
            R("CKey", tags=L(sl, ["a b", "c"])),
            R("CKey", tags=L(sl, ["c", "a b"])),
            R("CKey", t=t3, tags=L(sl)), R("CKey", t=t0, v=2),
        ]
        lists = [[]] + [[x] for x in items]
        lists += [list(p) for p in itertools.product(items, repeat=2)]
        if level < 2:
            lists = lists[:10] + lists[10::3]
        for x in lists:
            yield R("CKeys", ck=L("CKeyList", x))
        return
    elif tname == "Mixes":
        sl, sm = "strList", "strMap"
        items = [
            R("Mix"), R("Mix", x=1), R("Mix", x=2), R("Mix", x=t0),
            R("Mix", x=t1), R("Mix", x=t2), R("Mix", y=t1), R("Mix", y=k1),
            R("Mix", y=k2), R("Mix", y=k3), R("Mix", z="a"),
            R("Mix", z=L(sl, ["a"])), R("Mix", z=L(sl, ["a ", "b"])),
            R("Mix", r=t1), R("Mix", r=t2), R("Mix", r=t4),
            R("Mix", r=R("Txt", n=3)), R("Mix", l=L(sl, ["a"])),
            R("Mix", l=L(sl, ["b"])), R("Mix", l=L(sl, ["a", "b"])),
            R("Mix", j=D(sm, {"p": "1", "q": "2"})),
            R("Mix", j=D(sm, {"p": "1", "q": "3"})), R("Mix", j=D(sm)),
            R("Mix", q=t1), R("Mix", q=t2), R("Mix", q=t4),
            R("Mix", x=1, y=t1, z="a", r=t2), R("Mix", x=2, y=t1, z="a",
                                                r=t4, l=L(sl, ["x"])),
        ]
        lists = [[]] + [[x] for x in items]
        pairs = [list(p) for p in itertools.permutations(items, 2)]
        lists += pairs if level > 1 else pairs[::5]
        for x in lists:
            yield R("Mixes", mx=L("MixList", x))
        for x in items:
            yield R("Mixes", m1=x)
            yield R("Mixes", md=D("MixMap", {"p": x}))
            yield R("Mixes", md=D("MixMap", {"q": x, "p": items[0]}))
        return
    elif tname == "MKeys":
        items = [
            R("MKey"), R("MKey", x=1), R("MKey", x=2, v=1), R("MKey", x=t1),
            R("MKey", x=t2), R("MKey", r=t1, v=2), R("MKey", r=t2),
            R("MKey", r=t4, v=1), R("MKey", x=1, r=t2), R("MKey", x=1, r=t4),
            R("MKey", x=1, r=R("Txt", n=2))]
        lists = [[]] + [[x] for x in items]
        lists += [list(p) for p in itertools.product(items, repeat=2)]
        for x in lists:
            yield R("MKeys", mk=L("MKeyList", x))
        return
    else:
        yield from U.trees(tname, level)
        return
    for s in U.vary(al, 1 if level < 2 else 2, full=False):
        yield R(tname, **s)


def special(tname):
    """longer lists of simple items, for pairing"""
    rv = []
    if tname == "KNode":
        ks = [R("Keyed", id=i, name=n) for i in (1, 2) for n in "pq"]
        for n in range(4):
            for c in itertools.product(ks, repeat=n):
                rv.append(R("KNode", ks=L("KeyedList", c)))
    elif tname == "Node":
        ls = [R("Leaf", a=1), R("Leaf", a=2, b="x"), R("Leaf", a=1, b="x"),
              R("Leaf", b="y"), R("LeafSub", a=1, c=1)]
        for n in range(3):
            for c in itertools.product(ls, repeat=n):
                rv.append(R("Node", kids=L("LeafList", c)))
                if n:
                    rv.append(R("Node", m=D("LeafMap", dict(zip("pq", c)))))
        for n in range(4):
            for c in itertools.product("xyz", repeat=n):
                rv.append(R("Node", tags=L("strList", c)))
    elif tname == "triples":
        ls = [R("Leaf", a=1, b="x"), R("Leaf", a=1, b="y"),
              R("Leaf", a=2, b="y"), R("Leaf", a=2)]
        for n in (2, 3):
            for c in itertools.product(ls, repeat=n):
                rv.append(R("Node", kids=L("LeafList", c)))
    return rv


SPACES = {
    "Leaf": ("Leaf", 0), "Keyed": ("Keyed", 1), "Keyed2": ("Keyed2", 1),
    "LeafSub": ("LeafSub", 1),
    "Node": ("Node", 0), "KNode": ("KNode", 0), "Holder": ("Holder", 1),
    "NList": ("NList", 1), "NDict": ("NDict", 1), "Opt": ("Opt", 0),
    "JLeaf": ("JLeaf", 0), "JNode": ("JNode", 0),
    "LeafList": ("LeafList", 1), "LeafMap": ("LeafMap", 1),
    "KeyedList": ("KeyedList", 1), "KeyedMap": ("KeyedMap", 1),
    "strList": ("strList", 1), "intMap": ("intMap", 1),
    "intListList": ("intListList", 1), "intListMap": ("intListMap", 1),
    "Txt": ("Txt", 1), "TH": ("TH", 1), "Cln": ("Cln", 1),
    "Bags": ("Bags", 1), "KBags": ("KBags", 1), "CKeys": ("CKeys", 1),
    "Mixes": ("Mixes", 1), "MKeys": ("MKeys", 1),
}


def space(name, thorough=False):
    if name.startswith("+"):
        ts = special(name[1:])
    else:
        tname, level = SPACES[name]
        if thorough and name not in ("Leaf",):
            level += 1
        ts = list(more_trees(tname, level))
    rv, seen = [], set()
    for t in ts:
        t = complete(t)
        k = repr(t)
        if k not in seen:
            seen.add(k)
            rv.append(t)
    return rv


def unhashable_item(t, inside=False):
    """values of collection items which have no identity"""
    if is_tree(t):
        if t[0] == "R":
            return any(unhashable_item(v, inside) for v in t[2].values())
        c = t[2] if t[0] == "L" else t[2].values()
        return any(unhashable_item(v, True) for v in c) or \
            any(unhashable_item(v, inside) for v in t[3].values())
    if not inside:
        return False
    try:
        hash(t)
    except TypeError:
        return True
    return False


def chunks(seq, n):
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]


def pair_tasks(names, tier, fn, parts=4, **kw):
    """a task for each part of all ordered pairs of the objects of a space"""
    tasks = []
    thorough = tier == "thorough"
    for name in names:
        ts = space(name, thorough)
        n = parts * (1 + len(ts) // 200) if len(ts) > 60 else 1

        def run(ctx, name=name, i=0, n=n):
            ts = [t for t in space(name, ctx.thorough and not kw)
                  if not unhashable_item(t)]
            if not ctx.thorough and name in kw.get("thin", ()):
                ts = ts[::3]
            objs = [build(t) for t in ts]
            # from a big space, pairs with at least one of the small ones
            small = None
            if len(ts) > 600:
                small = {repr(t) for t in space(name)}
                small = [repr(t) in small for t in ts]
            pairs = 0
            for j, ta in enumerate(ts):
                if j % n != i:
                    continue
                ctx.state()
                for k, tb in enumerate(ts):
                    if small and not small[j] and not small[k]:
                        continue
                    fn(ctx, name, j, k, ta, tb, objs[j], objs[k])
                    pairs += 1
            ctx.bound(objects=len(ts), pairs=pairs)
        for i in range(n):
            tasks.append(("pairs/%s/%d" % (name, i),
                          lambda ctx, r=run, i=i: r(ctx, i=i)))
    return tasks


ALL_SPACES = sorted(SPACES) + ["+KNode", "+Node", "+triples"]


# -- C23 ---------------------------------------------------------------------

def tasks_C23(tier):
    def one(ctx, name, j, k, ta, tb, a, b):
        def case():
            exact = alike(ca[j], ca[k], True)
            for fuzzy in (True, False):
                got = real(a, b, fuzzy_match=fuzzy)
                ctx.step()
                if exact:
                    expect(not got, "%s vs %s are equal but differ in %s",
                           show(ta), show(tb), got)
                elif not got:
                    expect(alike(ca[j], ca[k], False),
                           "no difference between %s and %s", show(ta),
                           show(tb))
            return exact
        if name not in cache:
            cache.clear()
            cache[name] = [cleaned(t) for t in space(name, ctx.thorough)
                           if not unhashable_item(t)]
        ca = cache[name]
        ctx.run((name, j, k), case)
    cache = {}
    tasks = pair_tasks(ALL_SPACES, tier, one)

    def shuffled(ctx):
        """the items of one collection in another order"""
        n = 0
        for name in ALL_SPACES:
            for t in space(name, ctx.thorough):
                if unhashable_item(t):
                    continue
                a = build(t)
                for t2 in reordered(t, True):
                    def case():
                        b = build(t2)
                        for fuzzy in (True, False):
                            got = real(a, b, fuzzy_match=fuzzy)
                            ctx.step()
                            expect(not got, "%s vs %s differ only in order, "
                                   "but: %s", show(t), show(t2), got)
                    ctx.run((name, show(t), show(t2)), case)
                    n += 1
        ctx.state(n)
        ctx.bound(reorderings=n)
    tasks.append(("reordered", shuffled))

    def copies(ctx):
        import copy
        import pickle
        for name in ALL_SPACES:
            for t in space(name, ctx.thorough):
                if unhashable_item(t):
                    continue

                def case():
                    a = build(t)
                    for how, b in (("itself", a),
                                   ("a deep copy", copy.deepcopy(a)),
                                   ("an equal object", build(t)),
                                   ("a pickled copy",
                                    pickle.loads(pickle.dumps(a)) if
                                    name not in LOCAL else build(t))):
                        for opts in ({}, {"fuzzy_match": False},
                                     {"recurse": True},
                                     {"extraneous": True, "moved": True},
                                     {"ignore_empty_slots": True,
                                      "ignore_empty_items": True}):
                            got = real(a, b, **opts)
                            ctx.step()
                            expect(not got, "%s differs from %s: %s (%s)",
                                   show(t), how, got, opts)
                ctx.run((name, show(t)), case)
                ctx.state()
    tasks.append(("copies", copies))

    def plain(ctx):
        """lists and dictionaries of values of any type"""
        def fresh():
            return [
                1, True, 1.5, "a", None, "", 0, (1,), [1], {1}, frozenset([1]),
                [], (), {}, set(), {"k": 1}, {"k": [1]}, {"k": (1,)},
                ([1],), [[1]], [(1,)], ((1,),), {"k": 1, "l": 2},
                {"l": 2, "k": 1}, {1: "k"}, [1, 2], [2, 1], (1, 2), {2, 1},
                {"k": {"l": [1]}}, {"k": {"l": [2]}}, {"k": {"l": (1,)}},
                [{"k": 1}], [{"k": 2}], [{"k"}], bytearray(b"a"), b"a",
                ({1},), (frozenset([1]),),
                "k", [None], [[]], [()], [{}], ["a b"], ["a  b"],
            ]

        class Any(Record):
            l = ListProperty(of=object)
            d = DictProperty(of=object)
            p = Property()
        n = len(fresh())
        makers = dict(
            list=lambda v: Any(l=[v]), second=lambda v: Any(l=["z", v]),
            dict=lambda v: Any(d={"k": v}), plain=lambda v: Any(p=["z", v]),
            values=lambda v: Any(p={"y": "z", "k": v}))
        twos = dict(
            list=lambda v, w: Any(l=[v, w]),
            dict=lambda v, w: Any(d={"k": v, "l": w}),
            plain=lambda v, w: Any(p=[v, w]))

        def same(v, w):
            return v == w and not {str(type(v)), str(type(w))} == {
                str(list), str(tuple)}

        def check(how, a, b, equal, moved):
            for fuzzy in (True, False):
                got = real(a, b, fuzzy_match=fuzzy)
                ctx.step()
                expect((not got) if equal or moved else got,
                       "%s: %r vs %r: %s", how, a, b, got)
        for how, make in sorted(makers.items()):
            for i, j in itertools.product(range(n), repeat=2):
                def case():
                    v, w = fresh()[i], fresh()[j]
                    check(how, make(v), make(w), same(v, w), False)
                ctx.run((how, i, j), case)
                ctx.state()
        # of two values, one is replaced; the other may change its place
        # (quick: not with all of the others)
        for how, make in sorted(twos.items()):
            for i, j in itertools.product(range(n), repeat=2):
                for k in range(n) if ctx.thorough else range(j % 5, n, 5):
                    def case():
                        u, v, w = fresh()[k], fresh()[i], fresh()[j]
                        x = fresh()[k]
                        check(how, make(u, v), make(x, w), same(v, w), False)
                        check(how, make(u, v), make(w, x), False, same(v, w))
                    ctx.run((how, i, j, k), case)
                ctx.state()
        ctx.bound(values=n)
    tasks.append(("plain", plain))
    return tasks


LOCAL = set()


IDENT = Model().ident


def reordered(t, top):
    """trees with the items of one collection (not inside of an item without
    a key) in another order; keys must be unique"""
    if not is_tree(t):
        return
    for s, v in t[-1].items():
        for v2 in reordered(v, top):
            slots = dict(t[-1])
            slots[s] = v2
            yield t[:-1] + (slots,)
    if t[0] == "R":
        return
    item = DECL[t[1]]["item"]
    vals = list(t[2]) if t[0] == "L" else list(t[2].values())
    pk = DECL[item]["pk"] if item else ()
    if pk:
        keys = [repr([cleaned(v[2].get(s)) for s in pk]) for v in vals]
        if len(set(keys)) < len(keys):
            return
    if item:
        # neither may different items be compared as the same
        idents = {}
        for v in vals:
            if idents.setdefault(IDENT(v, item), v) != v:
                return
    for p in itertools.permutations(vals):
        if list(p) != vals:
            if t[0] == "L":
                yield t[:2] + (list(p),) + t[3:]
            else:
                yield t[:2] + (dict(zip(t[2], p)),) + t[3:]
    if pk:
        for i, v in enumerate(vals):
            for v2 in reordered(v, top):
                if any(v2[2].get(s) != v[2].get(s) for s in pk):
                    continue
                vs = vals[:i] + [v2] + vals[i + 1:]
                if t[0] == "L":
                    yield t[:2] + (vs,) + t[3:]
                else:
                    yield t[:2] + (dict(zip(t[2], vs)),) + t[3:]


# -- C24 ---------------------------------------------------------------------

def tasks_C24(tier):
    modes = [dict(), dict(fuzzy_match=False), dict(recurse=True),
             dict(unchanged=True, moved=True),
             dict(unchanged=True, fuzzy_match=False)]
    models = [(m, Model(**m)) for m in modes]

    def one(ctx, name, j, k, ta, tb, a, b):
        def case():
            for opts, model in models:
                got = real(a, b, **opts)
                ctx.step()
                what = "%s vs %s" % (show(ta), show(tb))
                check_places(ta, tb, got, what)
                check_model(model, ta, tb, got)
        ctx.run((name, j, k), case)
    tasks = pair_tasks(ALL_SPACES, tier, one)

    def api(ctx):
        """the ways of comparing agree"""
        for name in ("Leaf", "Node", "NList", "JLeaf", "JNode", "KNode"):
            ts = space(name)
            objs = [build(t) for t in ts]
            ts = [(t, o) for t, o in zip(ts, objs) if not unhashable_item(t)]
            step = max(1, len(ts) // 40)
            for (ta, a), (tb, b) in itertools.product(ts[::step], repeat=2):
                def case():
                    want = canon(real(a, b))
                    base = {type(a).__name__}
                    for d in (diff(a, b), a.diff(b)):
                        got = [(NAMES[x.diff_type.display_name],
                                tuple(x.base.selectors),
                                tuple(x.other.selectors)) for x in d]
                        expect(canon(got) == want, "%s / %s", got, want)
                        expect({d.base_type_name} == base and
                               {d.other_type_name} == base, "type names")
                        expect(bool(len(d)) == bool(want), "length")
                        str(d), [str(x) for x in d]
                    got = [(NAMES[x.diff_type.display_name],
                            tuple(x.base.selectors),
                            tuple(x.other.selectors)) for x in
                           a.diff_iter(b, options=DiffOptions())]
                    expect(canon(got) == want, "%s / %s", got, want)
                    if name.startswith("J"):
                        js = [(x["diff_type"], tuple(x["base"]),
                               tuple(x["other"]))
                              for x in a.diff(b).json_data()]
                        expect(canon(js) == want, "as JSON %s / %s", js,
                               want)
                    ctx.step(5)
                ctx.run((name, show(ta), show(tb)), case)
                ctx.state()
    tasks.append(("ways of comparing", api))

    def wrong(ctx):
        """objects of different types are not compared"""
        ts = [("Leaf", R("Leaf", a=1)), ("LeafSub", R("LeafSub", a=1)),
              ("Keyed", R("Keyed", id=1)), ("NList", L("NList")),
              ("LeafList", L("LeafList"))]
        for (n, a), (m, b) in itertools.product(ts, repeat=2):
            def case():
                r = attempt(lambda: list(diff_iter(build(a), build(b))))
                if n == m:
                    expect(r == ("ok", []), "%r", r)
                else:
                    expect(r[0] == "exc" and isinstance(r[1], TypeError),
                           "%s with %s: %r", n, m, r)
                for other in (None, 1, "x", {"a": 1}):
                    r = attempt(lambda: list(diff_iter(build(a), other)))
                    expect(r[0] == "exc" and isinstance(r[1], TypeError),
                           "%s with %r: %r", n, other, r)
            ctx.run((n, m), case)
            ctx.state()
            ctx.step()
    tasks.append(("other types", wrong))

    def ducks(ctx):
        """with duck typing, any object with the same attributes will do"""
        class Duck(object):
            def __init__(self, **kw):
                self.__dict__.update(kw)

        def duck(t):
            if not is_tree(t):
                return t
            if t[0] == "R":
                return Duck(**{k: duck(v) for k, v in dict(
                    U.LAZY.get(t[1], {}), **t[2]).items()})
            if t[0] == "L":
                return [duck(v) for v in t[2]]
            return {k: duck(v) for k, v in t[2].items()}
        for name in ("Leaf", "Keyed", "KNode", "+KNode", "Node", "+Node"):
            ts = [t for t in space(name) if not unhashable_item(t) and
                  "LeafSub" not in repr(t)]
            step = max(1, len(ts) // (200 if ctx.thorough else 70))
            for ta, tb in itertools.product(ts[::step], repeat=2):
                if any(is_tree(ta[2].get(s, tb[2].get(s))) for s in
                       set(ta[2]) ^ set(tb[2])):
                    continue    # whether an empty one counts is not claimed
                if comparable(ta[2].get("u")) and \
                        not comparable(tb[2].get("u")):
                    continue    # any object is compared to a list as if one

                def case():
                    a, b = build(ta), duck(tb)
                    for model in (Model(fuzzy_match=False),
                                  Model(fuzzy_match=True)):
                        got = real(a, b, duck_type=True,
                                   fuzzy_match=model.fuzzy_match)
                        check_model(model, ta, tb, got, "as ducks: ")
                        ctx.step()
                ctx.run((name, show(ta), show(tb)), case)
                ctx.state()
    tasks.append(("ducks", ducks))
    return tasks


# -- C25 ---------------------------------------------------------------------

FLAGS = ("ignore_ws", "ignore_case", "unicode_normal", "ignore_empty_slots",
         "ignore_empty_items", "extraneous")


def option_sets(most, base=None):
    """the defaults, with up to so many options the other way"""
    for fs in subsets(FLAGS, most):
        opts = dict(fuzzy_match=False)
        opts.update({f: not OPTS[f] for f in fs})
        opts.update(base or {})
        yield opts


def clean_text(t, how):
    """with one clean-up of text applied to every place it applies to: slots,
    items, and the items of plain lists and dictionaries"""
    if isinstance(t, str):
        return how(t)
    if is_tree(t):
        slots = {k: clean_text(v, how) for k, v in dict(
            U.LAZY.get(t[1], {}), **t[-1]).items()}
        if t[0] == "R":
            return t[:2] + (slots,)
        if t[0] == "L":
            return t[:2] + ([clean_text(v, how) for v in t[2]], slots)
        return t[:2] + ({k: clean_text(v, how) for k, v in t[2].items()},
                        slots)
    one = lambda v: how(v) if isinstance(v, str) else v
    if isinstance(t, (list, tuple)):
        return type(t)(one(v) for v in t)
    if isinstance(t, dict):
        return {k: one(v) for k, v in t.items()}
    return t


def no_compare_as(t):
    if not is_tree(t):
        return True
    d = DECL[t[1]]
    if d["compare_as"] or d["item_as"]:
        return False
    parts = list(t[-1].values())
    if t[0] == "L":
        parts += list(t[2])
    elif t[0] == "D":
        parts += list(t[2].values())
    return all(no_compare_as(v) for v in parts)


def squeezed(s):
    return "".join(s.split())


def unaccented(s):
    return "".join(c for c in unicodedata.normalize("NFKD", s)
                   if not unicodedata.combining(c))


def is_text(v):
    return isinstance(v, str)


def loosely(a, b):
    return str(a).lower() == str(b).lower()


def own_hooks():
    """what subclasses of DiffOptions may override: (name, subclass, the same
    for the model)"""
    def has_n(o):
        if is_tree(o):
            return o[-1].get("n") == 1
        return getattr(o, "n", None) == 1

    def first(v):
        return v[:1] if is_text(v) else v

    def low(v):
        return v.lower() if is_text(v) else v

    def odd(k):
        return k in (1, "y", "l")

    class Equal(DiffOptions):
        def items_equal(self, a, b):
            return loosely(a, b)

    class EqualModel(Model):
        equal = staticmethod(loosely)

    class Ws(DiffOptions):
        def normalize_whitespace(self, value):
            return squeezed(value)

    class WsModel(Model):
        ws = staticmethod(squeezed)

    class Unf(DiffOptions):
        def normalize_unf(self, value):
            return unaccented(value)

    class UnfModel(Model):
        unf = staticmethod(unaccented)

    class Case(DiffOptions):
        def normalize_case(self, value):
            return value[:1].swapcase() + value[1:].upper()

    class CaseModel(Model):
        case = staticmethod(lambda s: s[:1].swapcase() + s[1:].upper())

    class Empty(DiffOptions):
        def value_is_empty(self, value):
            return value is False or value == "c" or value == "A b"

    class EmptyModel(Model):
        empty = staticmethod(
            lambda v: v is False or is_text(v) and v in ("c", "A b"))

    class Text(DiffOptions):
        def normalize_text(self, value):
            return DiffOptions.normalize_text(self, value).strip("a")

    class TextModel(Model):
        def text(self, s):
            return Model.text(self, s).strip("a")

    class Val(DiffOptions):
        def normalize_val(self, value=DiffOptions._nothing):
            value = DiffOptions.normalize_val(self, value)
            if isinstance(value, int):
                return value % 2
            return value

    class ValModel(Model):
        def value(self, v):
            v = Model.value(self, v)
            if isinstance(v, int):
                return v % 2
            return v

    class Slot(DiffOptions):
        def normalize_slot(self, value=DiffOptions._nothing, prop=None):
            value = DiffOptions.normalize_slot(self, value, prop)
            if value == "A b":
                return self._nothing
            return first(value) if prop.name in ("s", "v", "low") else value

    class SlotModel(Model):
        def slot_value(self, v, s):
            v = Model.slot_value(self, v, s)
            if is_text(v) and v == "A b":
                return NOTHING
            return first(v) if s in ("s", "v", "low") else v

    class ObjectSlot(DiffOptions):
        def normalize_object_slot(self, value=DiffOptions._nothing, prop=None,
                                  obj=None):
            value = DiffOptions.normalize_object_slot(self, value, prop, obj)
            return first(value) if has_n(obj) else value

    class ObjectSlotModel(Model):
        def slot(self, o, s):
            v = Model.slot(self, o, s)
            return first(v) if o is not NOTHING and has_n(o) else v

    class Item(DiffOptions):
        def normalize_item(self, value=DiffOptions._nothing, coll=None,
                           index=None):
            value = DiffOptions.normalize_item(self, value, coll, index)
            return low(value) if odd(index) else value

    class ItemModel(Model):
        def item(self, coll, v, k):
            v = Model.item(self, coll, v, k)
            return low(v) if odd(k) else v

    class CollItem(DiffOptions):
        def normalize_item(self, value=DiffOptions._nothing, coll=None,
                           index=None):
            value = DiffOptions.normalize_item(self, value, coll, index)
            return low(value) if len(coll) > 1 else value

    class CollItemModel(Model):
        def item(self, coll, v, k):
            v = Model.item(self, coll, v, k)
            n = len(coll[2]) if is_tree(coll) else len(coll)
            return low(v) if n > 1 else v

    class Id(DiffOptions):
        def record_id(self, record, type_=None, selector=None):
            return DiffOptions.record_id(self, record, type_, selector)[:1]

    class IdModel(Model):
        def item_id(self, v, filt):
            return Model.item_id(self, v, filt)[:1]
    here = locals()
    return [(k, v, here[k + "Model"]) for k, v in sorted(here.items())
            if isinstance(v, type) and k + "Model" in here]


C25_SPACES = ["Txt", "TH", "Cln", "Bags", "KBags", "CKeys", "KNode", "Node",
              "Opt", "JNode", "JLeaf", "NList", "NDict", "Holder", "Keyed",
              "LeafMap", "LeafList", "+triples", "Mixes", "MKeys"]


def tasks_C25(tier):
    thorough = tier == "thorough"

    def models(extra, most):
        rv = []
        for o in extra:
            rv.extend((o2, Model(**o2)) for o2 in option_sets(most, o))
        return rv
    every = models([dict()], 6 if thorough else 2)
    every += models([dict(unchanged=True, moved=True)], 2)
    every += models([dict(fuzzy_match=True), dict(recurse=True),
                     dict(unchanged=True, recurse=True),
                     dict(moved=True), dict(unchanged=True)],
                    2 if thorough else 1)

    def exact(ctx, name, j, k, ta, tb, a, b):
        def case():
            for opts, model in every:
                got = real(a, b, **opts)
                ctx.step()
                check_model(model, ta, tb, got)
        ctx.run((name, j, k), case)
    tasks = pair_tasks(C25_SPACES, "quick", exact, parts=8,
                       thin=["Holder", "+triples", "Bags", "LeafMap", "Mixes",
                             "MKeys"])

    hows = dict(
        ignore_ws=lambda s: " ".join(s.split()),
        ignore_case=lambda s: s.upper(),
        unicode_normal=lambda s: unicodedata.normalize("NFC", s))

    def cleaned_first(ctx, name, j, k, ta, tb, a, b):
        """ignoring something is comparing what is left without it"""
        def case():
            if name not in cache:
                cache.clear()
                cache[name] = {}
            c = cache[name]
            for on in subsets(sorted(hows)):
                opts = {f: f in on for f in hows}
                off = {f: False for f in hows}
                two = []
                for i, t in ((j, ta), (k, tb)):
                    if (i, on) not in c:
                        for f in on:
                            t = clean_text(t, hows[f])
                        c[i, on] = build(t)
                    two.append(c[i, on])
                for fuzzy in (False, True):
                    x = dict(fuzzy_match=fuzzy, unchanged=True, moved=True)
                    got = canon(real(a, b, **dict(opts, **x)))
                    want = canon(real(*two, **dict(off, **x)))
                    ctx.step()
                    expect(got == want, "%s vs %s with %s: %s; cleaned up "
                           "before: %s", show(ta), show(tb), opts, got, want)
        if no_compare_as(ta) and no_compare_as(tb):
            ctx.run((name, j, k), case)
    cache = {}
    for name, fn in pair_tasks(["Txt", "TH", "Bags", "KBags", "CKeys", "JNode",
                                "Node", "KNode"], tier, cleaned_first):
        tasks.append(("cleaned/" + name, fn))

    def only_adds(ctx, name, j, k, ta, tb, a, b):
        """asking for more kinds of reports only adds reports of those"""
        def case():
            for fuzzy, rec in itertools.product((False, True), repeat=2):
                kw = dict(fuzzy_match=fuzzy, recurse=rec)
                want = canon(real(a, b, **kw))
                for un, mv in ((True, False), (False, True), (True, True)):
                    got = real(a, b, unchanged=un, moved=mv, **kw)
                    ctx.step()
                    rest = canon(x for x in got
                                 if x[0] not in ("none", "moved"))
                    expect(rest == want, "%s vs %s: %s; with unchanged=%s "
                           "moved=%s: %s", show(ta), show(tb), want, un, mv,
                           rest)
                    for kind_, pa, pb in got:
                        expect(kind_ != "none" or un, "%s not asked for",
                               kind_)
                        expect(kind_ != "moved" or mv, "%s not asked for",
                               kind_)
                        if kind_ not in ("none", "moved"):
                            continue
                        expect(pa[-1:] != pb[-1:] or kind_ == "none",
                               "moved to the same place %s", pa)
                        va, vb = place(ta, pa, True), place(tb, pb, True)
                        expect(va is not NOTHING and vb is not NOTHING,
                               "%s: no such place: %s / %s", kind_, pa, pb)
                        if not is_tree(va):
                            expect(U.same(cleaned(va), cleaned(vb)) or
                                   frozen(cleaned(va)) == frozen(cleaned(vb)),
                                   "%s %s / %s, but %s vs %s", kind_, pa, pb,
                                   va, vb)
        ctx.run((name, j, k), case)
    for name, fn in pair_tasks(ALL_SPACES, tier, only_adds):
        tasks.append(("unchanged/" + name, fn))

    def suppressed(ctx):
        """what each option does to a single pair of texts or values, from
        first principles"""
        vals = [NOTHING, None, "", " ", "a", "A", "a ", "A\t", "a b", "a  b",
                "\u00e9", "e\u0301", "\u00c9", 0, 1, False, 1.0, [], (),
                # in upper case, these have characters to be composed
                "\u0390", "\u03aa\u0301"]
        makers = dict(
            slot=lambda v: R("Txt") if v is NOTHING else R("Txt", u=v),
            nested=lambda v: R("TH", t=R("Txt") if v is NOTHING else
                               R("Txt", u=v)),
            keyed=lambda v: R("KNode", ks=L("KeyedList", [
                R("Keyed", id=1) if v is NOTHING else
                R("Keyed", id=1, name=v)])) if v is NOTHING or
            isinstance(v, str) else None,
            raw=lambda v: R("Txt", u=[1, "x"] if v is NOTHING else
                            [1, "x", v]),
            rawdict=lambda v: R("Txt", u={} if v is NOTHING else {"k": v}),
            item=lambda v: R("TH", tags=L("strList", [] if v is NOTHING else
                                          [v])) if v is NOTHING or
            isinstance(v, str) else None,
            value=lambda v: R("TH", n=D("strMap", {} if v is NOTHING else
                                        {"k": v})) if v is NOTHING or
            isinstance(v, str) else None)
        for how, make in sorted(makers.items()):
            for v, w in itertools.product(vals, repeat=2):
                ta, tb = make(v), make(w)
                if ta is None or tb is None:
                    continue
                a, b = build(complete(ta)), build(complete(tb))
                for opts in option_sets(6):
                    def case():
                        x, y = [_what_is_left(z, opts) for z in (v, w)]
                        same = x is y or (x is not NOTHING and
                                          y is not NOTHING and x == y and
                                          (not comparable(x) or
                                           type(x) is type(y)))
                        if opts.get("ignore_empty_slots") and \
                                how not in ("raw", "rawdict") and \
                                {x is NOTHING, y is NOTHING} == \
                                {True, False} and (comparable(x) or
                                                   comparable(y)):
                            same = True     # an empty list, against nothing
                        got = real(a, b, **opts)
                        expect(bool(got) != same, "%r against %r as %s, with "
                               "%s: %s", v, w, how, opts, got)
                        ctx.step()
                    ctx.run((how, repr(v), repr(w), sorted(opts.items())),
                            case)
                ctx.state()
    tasks.append(("what is left", suppressed))

    def overridden(name, i, n):
        def run(ctx):
            ts = [t for t in space(name) if not unhashable_item(t)]
            k = 1 if ctx.thorough else 1 + len(ts) // 45
            ts = ts[::k]
            objs = [build(t) for t in ts]
            hooks = own_hooks()
            sets = [o for o in option_sets(1)] + [
                dict(unchanged=True, moved=True),
                dict(ignore_empty_slots=True, ignore_case=True),
                dict(fuzzy_match=True)]
            for j, k in itertools.product(range(len(ts)), repeat=2):
                if j % n != i:
                    continue
                for hook, opts_class, model_class in hooks:
                    def case():
                        for opts in sets:
                            got = real(objs[j], objs[k],
                                       options=opts_class(**opts))
                            ctx.step()
                            check_model(model_class(**opts), ts[j], ts[k],
                                        got, hook + " overridden: ")
                    ctx.run((name, hook, j, k), case)
                ctx.state()
            ctx.bound(objects=len(ts), hooks=len(hooks))
        return run
    for name in ("Txt", "TH", "KNode", "Bags", "KBags", "Cln", "CKeys"):
        for i in range(4):
            tasks.append(("overridden/%s/%d" % (name, i),
                          overridden(name, i, 4)))

    def extraneous(ctx):
        """extraneous properties count exactly when asked for"""
        leafs = [R("Keyed", id=1), R("Keyed", id=1, ex="a"),
                 R("Keyed", id=1, ex="b"), R("Keyed", id=1, name="a")]
        for x, y in itertools.product(leafs, repeat=2):
            for how in ("self", "list", "map", "extra"):
                def wrap(k):
                    if how == "self":
                        return k
                    if how == "extra":
                        v = k[2].get("ex", NOTHING)
                        return L("NList", [R("Leaf", a=1)], **(
                            {"name": k[2]["name"]} if "name" in k[2] else {}),
                            **({} if v is NOTHING else {"n": ord(v)}))
                    return R("KNode", ks=L("KeyedList", [k])) \
                        if how == "list" else \
                        R("KNode", kd=D("KeyedMap", {"k": k}))
                for ex in (False, True):
                    def case():
                        a, b = build(wrap(x)), build(wrap(y))
                        got = real(a, b, extraneous=ex)
                        same = x[2].get("name") == y[2].get("name") and (
                            not ex or x[2].get("ex") == y[2].get("ex"))
                        expect(bool(got) != same, "%s vs %s, extraneous=%s: "
                               "%s", show(wrap(x)), show(wrap(y)), ex, got)
                        ctx.step()
                    ctx.run((how, show(x), show(y), ex), case)
        ctx.state(len(leafs) ** 2)
    tasks.append(("extraneous", extraneous))
    return tasks


def _what_is_left(v, opts):
    """of a value, after what the options ignore"""
    if isinstance(v, str):
        if opts.get("ignore_ws", True):
            v = " ".join(v.split())
        if opts.get("ignore_case"):
            v = v.upper()
        if opts.get("unicode_normal", True):
            v = unicodedata.normalize("NFC", v)
    if opts.get("ignore_empty_slots") and (v is None or v == "" and
                                           isinstance(v, str)):
        return NOTHING
    return v


# -- C26 ---------------------------------------------------------------------

def type_paths(tname, depth, root=True):
    """the paths of a type, to slots and items; wildcards for items"""
    d = DECL[tname]
    if root:
        yield ()
    if depth == 0:
        return
    kind_ = TYPES[tname]
    if issubclass(kind_, (ListCollection, DictCollection)):
        if d["slots"]:
            for s in d["slots"]:
                yield (s,)
        keys = [0, 1] if issubclass(kind_, ListCollection) else ["a", "x"]
        for k in [None] + keys:
            if k is None and d["slots"]:
                continue    # names its properties as well
            yield (k,)
            if d["item"]:
                for p in type_paths(d["item"], depth - 1, False):
                    yield (k,) + p
        return
    for s in d["slots"]:
        yield (s,)
        t = d["types"].get(s)
        if t:
            for p in type_paths(t, depth - 1, False):
                yield (s,) + p


def usable(paths):
    """can these be one filter?  Not with wildcards next to keys, nor with a
    different choice of fields for different items of a collection"""
    heads = {}
    for p in paths:
        if p:
            heads.setdefault(p[0], []).append(p[1:])
    if () in paths:
        return True
    if None in heads and len(heads) > 1:
        return False
    if not all(usable(tails) for tails in heads.values()):
        return False
    if len(heads) > 1 and all(isinstance(h, int) for h in heads) or \
            set(heads) <= {"a", "x"} and len(heads) > 1:
        whole = {frozenset(t) if () not in t else () for t in heads.values()}
        return len(whole) == 1 or set(heads) == {"a", "x"} and False
    return True


def prune(t, filt):
    """only what a filter selects"""
    if filt is None or () in filt:
        return t
    m = Model()

    def sub(k):
        return m.sub(filt, (k,))
    slots = {k: prune(v, sub(k)) for k, v in t[-1].items()
             if sub(k) is not None}
    if t[0] == "R":
        return t[:2] + (slots,)
    if t[0] == "L":
        return t[:2] + ([prune(v, sub(i)) for i, v in enumerate(t[2])
                         if sub(i) is not None], slots)
    return t[:2] + ({k: prune(v, sub(k)) for k, v in t[2].items()
                     if sub(k) is not None}, slots)


def keys_kept(tname, filt):
    """no item type's primary key is partly outside of the filter"""
    if filt is None or () in filt:
        return True
    d = DECL[tname]
    m = Model()
    if d["pk"] and not all(m.sub(filt, (s,)) for s in d["pk"]):
        return False
    for s, t in d["types"].items():
        f = m.sub(filt, (s,))
        if f and not keys_kept(t, f):
            return False
    if d["item"]:
        for h in {p[0] for p in filt if p}:
            f = m.sub(filt, (h,))
            if f and not keys_kept(d["item"], f):
                return False
    return True


FILTERED = [("TH", 3), ("KNode", 3), ("Node", 3), ("Bags", 4), ("KBags", 4),
            ("CKeys", 4), ("NList", 2), ("NDict", 2), ("LeafMap", 2),
            ("LeafList", 2), ("KeyedMap", 2), ("Holder", 4), ("JNode", 3),
            ("Cln", 1)]


def filters(tname, depth, most):
    paths = list(type_paths(tname, depth))
    seen = set()
    for n in range(1, most + 1):
        for ps in itertools.combinations(paths, n):
            # a path which covers another one is the same filter
            if any(p != q and _covers(p, q) for p in ps for q in ps):
                continue
            if usable(ps) and frozenset(ps) not in seen:
                seen.add(frozenset(ps))
                yield ps


def _covers(p, q):
    return len(p) <= len(q) and all(
        x is None or x == y for x, y in zip(p, q))


def tasks_C26(tier):
    thorough = tier == "thorough"
    tasks = []

    def objects(name):
        ts = [t for t in space(name) if not unhashable_item(t)]
        if name in ("Node", "KNode"):
            ts += [t for t in space("+" + name)]
            ts = ts[::2]
        most = 100 if thorough else 36
        step = max(1, (len(ts) + most - 1) // most)
        return ts[::step]

    def task(name, depth, i, n):
        def run(ctx):
            ts = objects(name)
            objs = [build(t) for t in ts]
            # items of subtypes are known by more than the fields selected,
            # and these clean-ups look at other fields
            odd = {i for i, t in enumerate(ts)
                   if "LeafSub" in repr(t) or "'Cln'" in repr(t)}
            pairs = [(j, k) for j in range(len(ts)) for k in range(len(ts))]
            whole = {}
            count = 0
            for f, paths in enumerate(filters(name, depth,
                                              3 if thorough else 2)):
                if f % n != i:
                    continue
                big = len(paths) > (1 if not thorough else 2)
                every = 5 if thorough else 13
                mine = pairs[f % every::every] if big else pairs
                ctx.state()
                count += 1
                fl = [list(p) for p in paths]
                mfs = MultiFieldSelector(*fl)
                model = Model(compare_filter=fl, fuzzy_match=False)
                fuzzy = Model(compare_filter=fl)
                pruned = None
                if not any(isinstance(x, int) for p in paths for x in p) and \
                        keys_kept(name, frozenset(paths)) and name != "Cln":
                    pruned = [build(prune(t, frozenset(paths))) for t in ts]

                def case(j, k):
                    ta, tb = ts[j], ts[k]
                    got = real(objs[j], objs[k], compare_filter=mfs,
                               fuzzy_match=False)
                    check_model(model, ta, tb, got)
                    for kind_, pa, pb in got:
                        here = pa if kind_ != "added" else pb
                        expect(_touches(paths, here), "%s outside of %s",
                               (kind_, pa, pb), paths)
                    check_model(fuzzy, ta, tb, real(
                        objs[j], objs[k], compare_filter=fl))
                    ctx.step(2)
                    if pruned and j not in odd and k not in odd:
                        want = real(pruned[j], pruned[k], fuzzy_match=False)
                        expect(canon(got) == canon(want), "%s vs %s with "
                               "filter %s: %s; with the rest removed: %s",
                               show(ta), show(tb), mfs, got, want)
                        ctx.step()
                    if paths == ((),) or whole_type(name, paths):
                        want = real(objs[j], objs[k], fuzzy_match=False)
                        expect(canon(got) == canon(want), "%s vs %s with "
                               "filter %s, which selects all: %s / %s",
                               show(ta), show(tb), mfs, got, want)
                        ctx.step()
                for j, k in mine:
                    ctx.run((name, fl, j, k), case, j, k)
            ctx.bound(filters=count)
        return run
    for name, depth in FILTERED:
        n = 8 if name in ("TH", "Node", "Holder", "KNode", "Bags", "JNode",
                          "KBags", "CKeys") else 1
        for i in range(n):
            tasks.append(("filters/%s/%d" % (name, i),
                          task(name, depth, i, n)))
    return tasks


def _touches(paths, here):
    return any(all(x is None or x == y for x, y in zip(p, here))
               for p in paths)


def whole_type(name, paths):
    """the filter names every slot (or every item) of the type"""
    d = DECL[name]
    ones = {p for p in paths if len(p) == 1}
    if issubclass(TYPES[name], (ListCollection, DictCollection)):
        return not d["slots"] and (None,) in ones
    return all((s,) in ones for s in d["slots"] if s not in d["ex"])


# -- C27 ---------------------------------------------------------------------

MIRROR = dict(added="removed", removed="added")


def mirrored(diffs):
    return canon((MIRROR.get(k, k), pb, pa) for k, pa, pb in diffs)


def tasks_C27(tier):
    import copy
    thorough = tier == "thorough"
    base = [dict(), dict(unchanged=True, moved=True), dict(recurse=True),
            dict(ignore_empty_slots=True, unchanged=True),
            dict(ignore_empty_items=True, extraneous=True, moved=True),
            dict(ignore_case=True, ignore_empty_slots=True,
                 ignore_empty_items=True),
            dict(ignore_ws=False, unicode_normal=False, recurse=True,
                 unchanged=True)]

    def swap(ctx, name, j, k, ta, tb, a, b):
        def case():
            for o in base:
                one = real(a, b, fuzzy_match=False, **o)
                two = real(b, a, fuzzy_match=False, **o)
                ctx.step(2)
                expect(canon(two) == mirrored(one), "%s vs %s with %s: %s; "
                       "swapped: %s", show(ta), show(tb), o, one, two)
        if j <= k:
            ctx.run((name, j, k), case)
    tasks = pair_tasks(ALL_SPACES, tier, swap)

    def again(ctx, name, j, k, ta, tb, a, b):
        def case():
            for o in base[:3]:
                one = canon(real(a, b, **o))
                two = canon(real(a, b, **o))
                expect(one == two, "%s vs %s again: %s / %s", show(ta),
                       show(tb), one, two)
                if name not in cache:
                    cache.clear()
                    cache[name] = {}
                c = cache[name]
                for i, x, t in ((j, a, ta), (k, b, tb)):
                    if i not in c:
                        c[i] = copy.deepcopy(x), build(rekeyed(t))
                two = canon(real(c[j][0], c[k][0], **o))
                expect(one == two, "%s vs %s, copied: %s / %s", show(ta),
                       show(tb), one, two)
                rc = canon(real(c[j][1], c[k][1], **o))
                expect(one == rc, "%s vs %s, with the keys of dictionaries "
                       "set in another order: %s / %s", show(ta), show(tb),
                       one, rc)
                ctx.step(4)
        ctx.run((name, j, k), case)
    cache = {}
    for name, fn in pair_tasks(ALL_SPACES, tier, again):
        tasks.append(("copies/" + name, fn))

    def seeds(ctx):
        """other processes, with other hash orders"""
        names = [n for n in ALL_SPACES]
        code = ("import sys; sys.path[:0] = [%r, %r]; "
                "from mc import c_diff; c_diff.digests(%r)")
        import normalize
        where = os.path.dirname(os.path.dirname(normalize.__file__))
        want = None

        def start(seed):
            return subprocess.Popen(
                [sys.executable, "-B", "-W", "ignore", "-c",
                 code % (VERIF, where, names)],
                stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                env=dict(os.environ, PYTHONHASHSEED=str(seed)))
        procs = {}
        count = 24 if thorough else 4
        for seed in range(count):
            for s in range(seed, min(count, seed + 4)):
                if s not in procs:
                    procs[s] = start(s)

            def case():
                out, err = procs[seed].communicate()
                expect(procs[seed].returncode == 0, "process with hash seed "
                       "%d: %s", seed, err.decode()[-400:])
                return json.loads(out.decode())
            got = ctx.run(("seed", seed), case)
            if got is None:
                continue
            ctx.state()
            ctx.step(sum(n for n, d in got.values()))
            if want is None:
                want = got

            def compare():
                for n in got:
                    expect(got[n] == want[n], "comparing %s gives other "
                           "results with PYTHONHASHSEED=%d", n, seed)
            ctx.run(("same as others", seed), compare)
    tasks.insert(0, ("hash seeds", seeds))
    return tasks


def rekeyed(t):
    """the same, with dictionaries filled in another order"""
    if not is_tree(t):
        if isinstance(t, dict):
            return dict(reversed(list(t.items())))
        return t
    slots = {k: rekeyed(v) for k, v in reversed(list(t[-1].items()))}
    if t[0] == "R":
        return t[:2] + (slots,)
    if t[0] == "L":
        return t[:2] + ([rekeyed(v) for v in t[2]], slots)
    return t[:2] + ({k: rekeyed(v) for k, v in reversed(list(t[2].items()))},
                    slots)


def digests(names):
    """printed by each of the processes: what comparing everything gives"""
    import hashlib
    out = {}
    for name in names:
        ts = [t for t in space(name) if not unhashable_item(t)]
        objs = [build(t) for t in ts]
        h = hashlib.sha256()
        n = 0
        for a in objs:
            for b in objs:
                for o in (dict(), dict(unchanged=True, moved=True),
                          dict(fuzzy_match=False)):
                    h.update(repr(canon(real(a, b, **o))).encode())
                    n += 1
        out[name] = (n, h.hexdigest())
    print(json.dumps(out))
