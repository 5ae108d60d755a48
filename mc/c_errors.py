"""C37: what the errors say."""
import itertools

from normalize import (
    DictCollection, JsonListProperty, JsonProperty, JsonRecord,
    JsonRecordList, ListCollection, ListProperty, Property, Record,
    FieldSelector, from_json,
)
from normalize import exc
from normalize.coll import dict_of, list_of
from normalize.diff import DiffOptions
from normalize.identity import record_id
from normalize.property import (
    LazySafeProperty, ROLazyProperty, ROProperty, SafeProperty, V1Property,
)
from normalize.property.json import SafeJsonProperty
from normalize.record.json import JsonRecordDict
from normalize.selector import FieldSelectorException
from normalize.subtype import subtype
from normalize.visitor import VisitorPattern

from .core import attempt, expect, fail, subsets


class Odd(object):
    """what a value looks like is up to it"""
    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text


class Boom(Exception):
    pass


class Plain(Record):
    x = Property()


def values():
    return [
        "text", "", "{}", "{0}", "{passed!r}", "{prop.fullname}", "{{", "}",
        "%s", "%(x)s", "%", "it's", 'a "b" c', "a\nb", "caf\u00e9\u2603",
        "\\", "x" * 200, "{}y" * 900, "\0", b"bytes{}", ["{0}"], [], {"{": "}"}, {},
        ("%s",), (), (1, 2), set(), Odd("<odd>"), Odd("{odd}"), Odd("%d"),
        Odd("{0.x}"), Plain(x="{}"), Plain(), object, len, Boom("{z}"),
        1 + 2j,
    ]


def error(r, cls, builtin, attrs, texts):
    """an error of this class, with these attributes, which says this"""
    expect(r[0] == "exc", "accepted: %r", r[1])
    e = r[1]
    expect(type(e) is cls, "%s (%s), not %s", type(e).__name__, e,
           cls.__name__)
    expect(isinstance(e, exc.NormalizeError), "not a NormalizeError")
    for b in builtin:
        expect(isinstance(e, b), "%s is not a %s", type(e).__name__,
               b.__name__)
    for k, want in attrs.items():
        got = attempt(getattr, e, k)
        expect(got[0] == "ok", "the error has no %s", k)
        got = got[1]
        if callable(want) and getattr(want, "test", False):
            want(got)
        else:
            expect(got is want or (
                type(got) is type(want) and isinstance(got, (str, tuple)) and
                got == want), "%s is %r, not %r", k, got, want)
    text = str(e)
    for t in texts:
        expect(t in text, "the message %r does not say %r", text, t)
    expect("uncustomized" not in text, "%r", text)
    expect("%s" % e == text, "two messages")
    rep = repr(e)
    expect(type(e).__name__ in rep, "repr: %s", rep)
    for k, want in attrs.items():
        expect(k + "=" in rep, "repr without %s: %s", k, rep)
    expect(attempt(getattr, e, "nosuch")[0] == "exc" and isinstance(
        attempt(getattr, e, "nosuch")[1], AttributeError), "has everything")
    return e


def tester(f):
    f.test = True
    return f


def raised(cls, text=None):
    """an attribute which is another exception"""
    @tester
    def test(e):
        expect(type(e) is cls, "wraps %r, not %s", e, cls.__name__)
        expect(text is None or str(e) == text, "wraps %s, not %s", e, text)
    return test


# -- slots -------------------------------------------------------------------

Even = subtype("Even", of=int, where=lambda i: i % 2 == 0)
Evened = subtype("Evened", of=int, where=lambda i: i % 2 == 0,
                 coerce=lambda v: 7)


class Inner(Record):
    """coerced from a dict"""
    n = Property(isa=int, required=True)
    m = Property(check=lambda v: v == "ok")


Ints = list_of(int)
IntMap = dict_of(int)


class Thrown(object):
    """a coerce function which raises the same thing each time"""
    def __init__(self, e):
        self.e = e

    def __call__(self, v):
        raise self.e


def constant(x):
    def coerce(v):
        return x
    return coerce


BOOM = Boom("{boom} %s")
KEYERR = KeyError("{k}")
ATTRERR = AttributeError("lost")
VALERR = ValueError("%d")
# name -> (arguments, which values are refused, error, builtins, more
# attributes, more text)


def kinds():
    def no_int(v):
        return attempt(int, v)[0] == "exc"

    def every(v):
        return True
    return {
        "type": (dict(isa=int), no_int, exc.CoerceError, (TypeError,), {},
                 ["int constructor"]),
        "types": (dict(isa=(int, float)), every, exc.CoerceError,
                  (TypeError,), {}, ["(int, float)"]),
        "coerce raises": (dict(isa=int, coerce=Thrown(BOOM)), every,
                          exc.CoerceError, (TypeError,), dict(exc=BOOM),
                          ["{boom} %s"]),
        "coerce raises KeyError": (
            dict(isa=int, coerce=Thrown(KEYERR)), every, exc.CoerceError,
            (TypeError,), dict(exc=KEYERR), ["{k}"]),
        "coerce raises AttributeError": (
            dict(isa=int, coerce=Thrown(ATTRERR)), every, exc.CoerceError,
            (TypeError,), dict(exc=ATTRERR), ["lost"]),
        "coerce raises ValueError": (
            dict(isa=(int, float), coerce=Thrown(VALERR)), every,
            exc.CoerceError, (TypeError,), dict(exc=VALERR), ["%d"]),
        "coerce returns another": (
            dict(isa=int, coerce=constant("{w} %s")), every,
            exc.ValueCoercionError, (TypeError,), dict(coerced="{w} %s"),
            ["{w} %s"]),
        "coerce returns another type": (
            dict(isa=(int, float), coerce=constant("7")), every,
            exc.ValueCoercionError, (TypeError,), dict(coerced="7"),
            ["'7'"]),
        "required coerce returns None": (
            dict(isa=int, coerce=constant(None), required=True), every,
            exc.ValueCoercionError, (TypeError,), dict(coerced=None),
            ["None"]),
        "coerce returns None": (
            dict(isa=int, coerce=constant(None)), every,
            exc.ValueCoercionError, (TypeError,), dict(coerced=None),
            ["None"]),
        "check": (dict(check=lambda v: False), every, exc.ValueCheckError,
                  (ValueError,), {}, []),
        "check of str": (dict(isa=str, check=lambda v: False),
                         lambda v: type(v) is str, exc.ValueCheckError,
                         (ValueError,), {}, []),
        "subtype": (dict(isa=Even), every, exc.CoerceError, (TypeError,),
                    dict(exc=raised(exc.SubtypeNoCoerceFunc)), ["Even"]),
        "subtype which coerces": (
            dict(isa=Evened), every, exc.ValueCoercionError, (TypeError,),
            dict(), ["7"]),
        "list": (dict(isa=Ints), lambda v: isinstance(v, (list, tuple)) and
                 len(v) and no_int(v[0]), exc.CoerceError, (TypeError,),
                 dict(exc=raised(exc.CollectionItemCoerceError)), []),
        "no list": (dict(isa=Ints), lambda v: isinstance(
            v, (Odd, Boom, Plain, complex)), exc.CoerceError, (TypeError,),
            dict(exc=raised(exc.CollectionCoerceError)), []),
        "no dict": (dict(isa=IntMap), lambda v: isinstance(
            v, (Odd, Boom, Plain, complex)), exc.CoerceError, (TypeError,),
            dict(exc=raised(exc.CollectionCoerceError)), []),
        "record": (dict(isa=Inner), lambda v: isinstance(v, dict) and v,
                   exc.CoerceError, (TypeError,),
                   dict(exc=raised(exc.PropertyNotKnown)), ["Inner"]),
        "empty record": (dict(isa=Inner), lambda v: isinstance(v, dict) and
                         not v, exc.CoerceError, (TypeError,),
                         dict(exc=raised(exc.PropertyRequired)),
                         ["Inner.n is required"]),
    }


PROPS = [Property, SafeProperty, ROProperty, V1Property, LazySafeProperty,
         ROLazyProperty, JsonProperty, SafeJsonProperty]


def holders(make):
    """record types which have the property p -> its full name"""
    class Own(Record):
        p = make()

    class Sub(Own):
        other = Property()

    class SubSub(Sub):
        q = Property(isa=int)

    class Base(Record):
        p = Property()
        x = Property()

    class Redefined(Base):
        p = make()

    class Listed(ListCollection):
        itemtype = int
        p = make()

    class ListedSub(Listed):
        y = Property()

    class Json(JsonRecord):
        p = make()

    class JsonSub(Json):
        y = Property()
    return [(Own, "Own.p"), (Sub, "Own.p"), (SubSub, "Own.p"),
            (Redefined, "Redefined.p"), (Listed, "Listed.p"),
            (ListedSub, "Listed.p"), (Json, "Json.p"), (JsonSub, "Json.p")]


def slots(kname):
    def run(ctx):
        kwargs, bad, cls, builtin, more, texts = kinds()[kname]

        def case(pcls, i, v, op):
            extra = {}
            if op in ("default", "lazy"):
                extra = dict(default=lambda: v)
            T, full = holders(lambda: pcls(**dict(kwargs, **extra)))[i]
            p = T.properties["p"]
            lst = issubclass(T, ListCollection)
            good = (lambda: T([])) if lst else T
            if op == "keyword":
                r = attempt(lambda: T(p=v))
            elif op == "dict":
                r = attempt(lambda: T([], p=v) if lst else T(
                    {"p": v}))
            elif op == "json":
                r = attempt(lambda: from_json(T, {"p": v}))
                if r[0] == "exc" and isinstance(
                        r[1], exc.JsonConversionError):
                    j = r[1]
                    expect(str(j.error_fs) == str(
                        FieldSelector(["p"])), "%s", j.error_fs)
                    r = ("exc", j.sub_exception)
                    expect(str(r[1]) in str(j), "%s", j)
            elif op == "default":
                r = attempt(good)
            elif op == "lazy":
                x = good()
                r = attempt(getattr, x, "p")
            elif op == "set":
                x = T.__new__(T)
                r = attempt(setattr, x, "p", v)
                expect("p" not in x.__dict__, "stored")
            attrs = dict(more, prop=p, passed=v)
            if cls is exc.CoerceError:
                attrs.setdefault("exc", raised_any)
            e = error(r, cls, builtin, attrs, texts + [full, repr(v)])
            expect(e.prop.fullname == full, "%s", e.prop.fullname)
            if cls is exc.CoerceError:
                expect(str(e.exc) in str(e), "%s without %s", e, e.exc)
        required = "required" in kwargs
        for pcls in PROPS:
            names = pcls.__name__
            for i in range(8):
                ctx.state()
                if i > 1 and not ctx.thorough and pcls not in (
                        Property, ROLazyProperty, SafeJsonProperty):
                    continue
                for n, v in enumerate(values()):
                    if not bad(v):
                        continue
                    ops = ["keyword", "dict"]
                    lazy = issubclass(pcls, (LazySafeProperty,
                                             ROLazyProperty))
                    ops.append("lazy" if lazy else "default")
                    if issubclass(pcls, SafeProperty):
                        ops.append("set")
                    if i > 5 and kname in (
                            "record", "empty record", "list", "no list",
                            "no dict"):
                        ops.remove("dict")      # converted member by member
                    elif i > 5:
                        ops.append("json")
                    if kname == "coerce returns None":
                        # at first, it means that there is no value
                        ops = [op for op in ops if op in ("set", "lazy")]
                    for op in ops:
                        ctx.run((kname, names, i, n, op), case, pcls, i, v,
                                op)
                        ctx.step()
    return run


@tester
def raised_any(e):
    expect(isinstance(e, Exception), "wraps %r", e)


def required_slots(ctx):
    """a required value which is not there, or is taken away; one which may
    not be set; one which is not there"""
    def case(pcls, i, op):
        ro = issubclass(pcls, ROProperty)
        kw = {}
        if op in ("missing", "none", "delete"):
            kw["required"] = True
        T, full = holders(lambda: pcls(**kw))[i]
        p = T.properties["p"]
        lst = issubclass(T, ListCollection)
        if op == "missing":
            error(attempt(lambda: T([]) if lst else T()),
                  exc.PropertyRequired, (ValueError,), dict(prop=p),
                  [full, "required"])
            return
        if op == "none":
            error(attempt(lambda: T(p=None)), exc.PropertyRequired,
                  (ValueError,), dict(prop=p), [full, "required"])
            if issubclass(pcls, SafeProperty):
                x = T(p=3)
                error(attempt(setattr, x, "p", None), exc.PropertyRequired,
                      (ValueError,), dict(prop=p), [full])
                expect(x.p == 3, "lost")
            return
        x = T(p=3)
        if op == "delete":
            r = attempt(delattr, x, "p")
            if ro:
                error(r, exc.ReadOnlyAttributeError, (AttributeError,),
                      dict(attrname=full), [full, "read-only"])
            elif issubclass(pcls, SafeProperty):
                error(r, exc.PropertyRequired, (ValueError,), dict(prop=p),
                      [full])
            else:
                return
            expect(x.p == 3, "lost")
        elif op == "set":
            for v in (values() if ro else ()):
                error(attempt(setattr, x, "p", v),
                      exc.ReadOnlyAttributeError, (AttributeError,),
                      dict(attrname=full), [full, "read-only"])
                expect(x.p == 3, "changed")
        elif op == "unset":
            if issubclass(pcls, (LazySafeProperty, ROLazyProperty,
                                 V1Property)):
                return
            x = T([]) if lst else T()
            r = attempt(getattr, x, "p")
            expect(r[0] == "exc" and type(r[1]) is AttributeError and
                   full in str(r[1]), "%r", r[1])
    for pcls in PROPS:
        for i in range(8):
            for op in ("missing", "none", "delete", "set", "unset"):
                if op == "missing" and issubclass(
                        pcls, (LazySafeProperty, ROLazyProperty)):
                    continue
                ctx.run((pcls.__name__, i, op), case, pcls, i, op)
                ctx.step()
            ctx.state()


def several(ctx):
    """of several values, the error is about one which is refused"""
    spec = {"a": ("x", 1), "b": (None, "ok"), "c": ("bad", "ok"),
            "d": ("{}", 2)}

    class T(Record):
        a = Property(isa=int)
        b = Property(required=True)
        c = Property(check=lambda v: v == "ok")
        d = ROProperty(isa=int)

    class J(JsonRecord):
        a = JsonProperty(isa=int)
        b = JsonProperty(required=True)
        c = JsonProperty(check=lambda v: v == "ok")
        d = Property(isa=int, traits=["ro"])
    classes = {"a": exc.CoerceError, "b": exc.PropertyRequired,
               "c": exc.ValueCheckError, "d": exc.CoerceError}

    def case(cls, wrong, order, how):
        kw = {k: spec[k][0 if k in wrong else 1] for k in order}
        if how == "json":
            r = attempt(from_json, cls, kw)
        else:
            r = attempt(lambda: cls(**kw) if how == "keyword" else cls(kw))
        if not wrong:
            expect(r[0] == "ok", "%r", r[1])
            return
        e = r[1]
        if isinstance(e, exc.JsonConversionError):
            name = e.error_fs.selectors[-1]
            expect(len(e.error_fs) == 1, "%s", e.error_fs)
            e = e.sub_exception
            expect(e.prop.name == name, "%s for %s", e, name)
        name = e.prop.name
        expect(name in wrong, "%s is fine", name)
        attrs = dict(prop=cls.properties[name])
        if name != "b":
            attrs["passed"] = kw[name]
        error(("exc", e), classes[name], (), attrs,
              ["%s.%s" % (cls.__name__, name)])
    for cls in (T, J):
        for wrong in subsets("abcd"):
            for order in itertools.permutations("abcd"):
                for how in ("keyword", "dict") + (
                        ("json",) if cls is J else ()):
                    ctx.run((cls.__name__, wrong, order, how), case, cls,
                            wrong, order, how)
                    ctx.step()
            ctx.state()


def unknown(ctx):
    """names which are not properties"""
    class A(Record):
        a = Property()

    class B(A):
        b = Property()

    class L(ListCollection):
        itemtype = int
        a = Property()

    class J(JsonRecord):
        a = Property()
    names = ["z", "A", "a0", "a ", "", "{}", "{0}", "%s", "caf\u00e9",
             "primary_key", "properties", "__init__", "__dict__", 5, None,
             (1,)]

    def case(T, name, more, how):
        d = dict(more)
        d[name] = 1
        if how == "keyword" and isinstance(name, str):
            r = attempt(lambda: T(**d))
        elif T is L:
            return
        else:
            r = attempt(lambda: T(d))
        error(r, exc.PropertyNotKnown, (), dict(
            propname=name, recordtype=T, typename=T.__name__),
            [str(name), T.__name__])
    for T in (A, B, L):
        for name in names + (["b"] if T is A else []):
            if T is L and name in ("values",):
                continue
            for more in ({}, {"a": 1}):
                for how in ("keyword", "dict"):
                    ctx.run((T.__name__, str(name), len(more), how), case, T,
                            name, more, how)
                    ctx.step()
        ctx.state()
    for T in (A, B, J):
        for d, kw in (({"a": 1}, {"a": 2}), ({"a": 1}, {"zz": 2})):
            if T is J:
                continue

            def both():
                error(attempt(lambda: T(d, **kw)), exc.AmbiguousConstruction,
                      (), {}, ["init_dict"])
            ctx.run((T.__name__, "both", sorted(kw)), both)


# -- collections -------------------------------------------------------------

class IL(ListCollection):
    itemtype = int


class ID(DictCollection):
    itemtype = int


class EL(ListCollection):
    itemtype = Even


class UL(ListCollection):
    itemtype = (int, float)


class UD(DictCollection):
    itemtype = (int, float)


class CL(ListCollection):
    itemtype = int

    @classmethod
    def coerceitem(cls, v):
        raise BOOM


class RL(ListCollection):
    itemtype = Inner


class RD(DictCollection):
    itemtype = Inner


class JL(JsonRecordList):
    itemtype = int


class JD(JsonRecordDict):
    itemtype = int


LISTS = [IL, EL, UL, CL, RL, JL, list_of(int), list_of(Inner)]
DICTS = [ID, UD, RD, JD, dict_of(int), dict_of(Inner)]
LIST_OPS = {
    "append": lambda x, v: x.append(v),
    "insert": lambda x, v: x.insert(0, v),
    "insert last": lambda x, v: x.insert(len(x), v),
    "set": lambda x, v: x.__setitem__(0, v),
    "set last": lambda x, v: x.__setitem__(-1, v),
    "slice": lambda x, v: x.__setitem__(slice(0, 1), [v]),
    "whole": lambda x, v: x.__setitem__(slice(None), [v]),
    "extend": lambda x, v: x.extend([v]),
    "extend iterator": lambda x, v: x.extend(iter([v])),
    "new": lambda x, v: type(x)([v]),
    "new tuple": lambda x, v: type(x)((v,)),
    "new generator": lambda x, v: type(x)(i for i in [v]),
    "new keyword": lambda x, v: type(x)(values=[v]),
    "new after": lambda x, v: type(x)(list(x) + [v]),
    "new dict": lambda x, v: type(x)({"k": v}),
}
DICT_OPS = {
    "set": lambda x, v: x.__setitem__("k", v),
    "set new": lambda x, v: x.__setitem__("{new}", v),
    "update": lambda x, v: x.update({"k": v}),
    "update pairs": lambda x, v: x.update([("k", v)]),
    "update keyword": lambda x, v: x.update(k=v),
    "setdefault": lambda x, v: x.setdefault("zz", v),
    "new": lambda x, v: type(x)({"k": v}),
    "new keyword": lambda x, v: type(x)(values={"k": v}),
    "new list": lambda x, v: type(x)([v]),
}


def items_of(T):
    if T.itemtype is Inner:
        return Inner(n=1)
    return 2


def collections(ctx):
    def case(T, oname, op, v):
        good = items_of(T)
        x = T({"k": good}) if issubclass(T, DictCollection) else T([good])
        before = list(x.items() if isinstance(x, DictCollection) else x)
        if not hasattr(x, "setdefault") and oname == "setdefault":
            return
        r = attempt(op, x, v)
        attrs = dict(itemtype=T.itemtype, colltype=T, passed=v,
                     exc=raised_any)
        if T is CL:
            attrs["exc"] = BOOM
        names = [t.__name__ for t in (
            T.itemtype if isinstance(T.itemtype, tuple) else (T.itemtype,))]
        e = error(r, exc.CollectionItemCoerceError, (TypeError,), attrs,
                  [T.__name__, repr(v)] + names)
        expect(str(e.exc) in str(e), "%s without %s", e, e.exc)
        after = list(x.items() if isinstance(x, DictCollection) else x)
        expect(len(before) == len(after) and all(
            a is b or isinstance(a, tuple) and a[1] is b[1]
            for a, b in zip(before, after)), "%s, was %s", after, before)
        if T.itemtype is Inner and isinstance(v, dict):
            inner = exc.PropertyNotKnown if v else exc.PropertyRequired
            expect(type(e.exc) is inner, "%r", e.exc)
        if T.itemtype is Even:
            error(("exc", e.exc), exc.SubtypeNoCoerceFunc, (TypeError,),
                  dict(passed=v, subtype=Even, subtype_of=int),
                  ["Even", repr(v)])
    for T in LISTS + DICTS:
        ops = DICT_OPS if issubclass(T, DictCollection) else LIST_OPS
        for oname, op in sorted(ops.items()):
            if T in (JL, JD) and oname in (
                    "new dict", "new list", "new generator"):
                continue        # arrays are not objects, in JSON
            ctx.state()
            for n, v in enumerate(values()):
                if T.itemtype is Inner:
                    if v is object or v is len or not isinstance(
                            v, (dict, int)):
                        continue
                ctx.run((T.__name__, oname, n), case, T, oname, op, v)
                ctx.step()


def no_collections(ctx):
    """values which are not the members of a collection"""
    def case(T, v):
        error(attempt(T, v), exc.CollectionCoerceError, (TypeError,),
              dict(colltype=T, passed=v), [T.__name__, repr(v)])

    def jcase(T, v):
        error(attempt(T.from_json, v), exc.JsonCollectionCoerceError,
              (TypeError,), dict(colltype=T, passed=v),
              [T.__name__, repr(v), T.json_coll_name])
    for T in LISTS + DICTS:
        for n, v in enumerate(values()):
            if T in (JL, JD):
                if isinstance(v, (list, tuple, dict, str, bytes)):
                    continue
                ctx.run((T.__name__, "json", n), jcase, T, v)
                ctx.step()
            if T is not JL and T is not JD and (isinstance(
                    v, (Odd, Boom, Plain, complex)) or v is len):
                ctx.run((T.__name__, n), case, T, v)
                ctx.step()
        ctx.state()

    class R(JsonRecord):
        a = JsonProperty()

    class S(Record):
        a = Property()

    def rcase(T, v):
        error(attempt(from_json, T, v), exc.JsonRecordCoerceError,
              (TypeError,), dict(recordtype=T, passed=v),
              [T.__name__, repr(v)])
    for T in (R, S):
        for n, v in enumerate(values()):
            if not isinstance(v, (dict, str, bytes)):
                ctx.run((T.__name__, n), rcase, T, v)
                ctx.step()


def subtypes(ctx):
    class Meta(type):
        pass

    class M(object, metaclass=Meta):
        pass
    Wide = subtype("Wide", of=Record, where=lambda r: hasattr(r, "x"))
    Deep = subtype("Deep", of=Even, where=lambda i: i > 10)
    Mine = subtype("Mine", of=M, where=lambda m: hasattr(m, "q"))

    def back(v):
        return v

    def case(of, where, coerced, v):
        T = subtype("T{}", of=of, where=where)
        r = attempt(T, v)
        error(r, exc.SubtypeNoCoerceFunc, (TypeError,),
              dict(subtype=T, subtype_of=of, passed=v),
              ["T{}", of.__name__, repr(v)])
        T = subtype("T%s", of=of, where=where, coerce=lambda v: coerced)
        error(attempt(T, v), exc.SubtypeCoerceError, (TypeError,),
              dict(subtype=T, subtype_of=of, passed=v, coerced=coerced),
              ["T%s", repr(v), repr(coerced)])
        T = subtype("T", of=of, where=where, coerce=back)
        error(attempt(T, v), exc.SubtypeCoerceError, (TypeError,),
              dict(subtype=T, subtype_of=of, passed=v, coerced=v),
              ["T", repr(v)])
        T = subtype("T", of=of, where=where, coerce=Thrown(BOOM))
        r = attempt(T, v)
        expect(r[0] == "exc" and r[1] is BOOM, "%r", r[1])
        ctx.step(4)
    for of in (int, str, object, Plain, Record, Even, Wide, Deep, M, Mine):
        for n, v in enumerate(values()):
            ctx.state()
            for m, c in enumerate(values()):
                if ctx.thorough or m % 4 == n % 4:
                    ctx.run((of.__name__, n, m), case, of, lambda v: False,
                            c, v)
    for of in (None, 5, "int", (int, str), [int], Plain(), any, len):
        ctx.run(("of", str(of)), lambda: error(
            attempt(subtype, "S", of=of, where=len), exc.SubtypeOfWhat,
            (TypeError,), dict(of=of), [str(of)]))


def nested(ctx):
    """the error is about the value which is wrong, however deep it is"""
    class R0(Record):
        v = Property(isa=int)

    class R1(Record):
        r = Property(isa=R0)
        l = ListProperty(of=R0)

    class R2(Record):
        r = Property(isa=R1)
        l = ListProperty(of=R1)
    RS = [R0, R1, R2]

    def case(path, v, op):
        data = {"v": v}
        T = R0
        for depth, step in enumerate(path):
            data = {step: data if step == "r" else [data]}
            T = RS[depth + 1]
        if op == "construct":
            r = attempt(T, data)
        else:
            x = T()
            (k, d), = data.items()
            r = attempt(setattr, x, k, d)
            expect(not x.__dict__, "stored")
        # from the outside in
        for depth in range(len(path), 0, -1):
            step = path[depth - 1]
            (k, d), = data.items()
            prop = RS[depth].properties[step]
            e = error(r, exc.CoerceError, (TypeError,), dict(
                prop=prop, passed=d, exc=raised_any),
                [prop.fullname, "R0.v", repr(v)])
            r = ("exc", e.exc)
            if step == "l":
                e = error(r, exc.CollectionItemCoerceError, (TypeError,),
                          dict(itemtype=RS[depth - 1], colltype=prop.valuetype,
                               passed=d[0], exc=raised_any),
                          [RS[depth - 1].__name__, "R0.v", repr(v)])
                r = ("exc", e.exc)
                d = d[0]
            data = d
        error(r, exc.CoerceError, (TypeError,), dict(
            prop=R0.properties["v"], passed=v,
            exc=raised(type(attempt(int, v)[1]), str(attempt(int, v)[1]))),
            ["R0.v", repr(v)])
    for n in (0, 1, 2):
        for path in itertools.product("rl", repeat=n):
            for i, v in enumerate(values()):
                if attempt(int, v)[0] == "ok":
                    continue
                for op in ("construct", "set"):
                    ctx.run((path, i, op), case, path, v, op)
                    ctx.step()
            ctx.state()


# -- placeholders, selectors -------------------------------------------------

def placeholders(ctx):
    """empty values say which types do not have it"""
    class A(Record):
        t = Property(isa=int)
        u = Property(isa=(int, Plain))
        l = ListProperty(of=Plain)
        r = Property(isa=Plain)
        f = Property()
    types = {"t": "int", "u": "int,Plain", "r": "Plain",
             "l": A.properties["l"].valuetype.__name__}
    names = ["nosuch", "_x", "caf\u00e9", "Z", "{}", "{0}", "%s"]

    def case(name, kind, what):
        e0 = getattr(A(), name + "0")
        tn = types[name]
        if kind == "attr":
            error(attempt(getattr, e0, what), exc.NoSuchAttribute,
                  (AttributeError,), dict(attribute=what, typenames=tn),
                  [what, tn])
        elif kind == "item":
            error(attempt(lambda: e0[what]), exc.NotSubscriptable,
                  (TypeError,), dict(typenames=tn), [tn])
        elif kind == "call":
            error(attempt(lambda: e0(what)), exc.NotCallable, (TypeError,),
                  dict(typenames=tn), [tn])
        elif kind == "setattr":
            error(attempt(setattr, e0, what, 1), exc.BadAssignment,
                  (TypeError,), dict(typenames=tn), [tn])
        else:
            error(attempt(e0.__setitem__, what, 1), exc.BadAssignment,
                  (TypeError,), dict(typenames=tn), [tn])
        expect(not e0, "true")
    for name in types:
        for kind in ("attr", "item", "call", "setattr", "setitem"):
            if name == "l" and kind == "item":
                continue
            for what in names:
                ctx.run((name, kind, what), case, name, kind, what)
                ctx.step()
        ctx.state()

    def deeper():
        for f, tn, what in (
            (lambda: A().l0[0].z, "Plain", "z"),
            (lambda: A().r0.z, "Plain", "z"),
            (lambda: A().l0.z, types["l"], "z"),
            (lambda: A().u0.z, "int,Plain", "z"),
            (lambda: A().l0[0:2][5].w, "Plain", "w"),
        ):
            error(attempt(f), exc.NoSuchAttribute, (AttributeError,),
                  dict(attribute=what, typenames=tn), [tn, what])
            ctx.step()
    ctx.run("deeper", deeper)


def selectors(ctx):
    """what could not be found"""
    class Item(Record):
        n = Property()
        ro = Property(traits=["ro"])
        opaque = Property()

    class Top(Record):
        item = Property(isa=Item)
        items = ListProperty(of=Item)
        table = Property(isa=dict_of(Item))
        plain = Property()
        lst = Property()

    def build():
        return Top(item=Item(n=1), items=[Item(n=1), Item(n=2)],
                   table={"a": Item(n=1)}, plain={"k": 1}, lst=[1, 2])
    Key, Attr = exc.FieldSelectorKeyError, exc.FieldSelectorAttributeError
    # path, what could not be found, is it a key
    cases = [
        (["nosuch"], "nosuch", 0), (["item", "zz"], "zz", 0),
        (["item", "caf\u00e9"], "caf\u00e9", 0), (["item", "{}"], "{}", 0),
        (["item", "%s"], "%s", 0), (["items", 5], 5, 1),
        (["items", -7], -7, 1), (["items", 0, "zz"], "zz", 0),
        (["items", 1, "opaque"], "opaque", 0), (["table", "b"], "b", 1),
        (["table", "{0}"], "{0}", 1), (["table", "a", "zz"], "zz", 0),
        (["lst", 2], 2, 1), (["plain", "j"], "j", 1),
        (["plain", "%d"], "%d", 1), (["item", "ro"], "ro", 0),
        (["items", 9, "n"], 9, 1), (["nosuch", "n"], "nosuch", 0),
        (["nosuch", 0, "n"], "nosuch", 0), (["table", "q", "n"], "q", 1),
        (["item", "zz", "y"], "zz", 0), (["lst", -3], -3, 1),
        (["items", None, "zz"], "zz", 0), (["items", None, "ro"], "ro", 0),
        (["items", None, "zz", 0], "zz", 0),
    ]

    def check(r, what, key, typed):
        expect(r[0] == "exc" and isinstance(r[1], FieldSelectorException),
               "%r", r[1])
        e = r[1]
        text = str(e)
        expect(str(what) in text and "uncustomized" not in text,
               "%r does not say what: %r", text, what)
        expect(type(e).__name__ in repr(e), "%r", e)
        if typed:
            expect(type(e) is (Key if key else Attr), "%r", e)
            if key:
                error(r, Key, (KeyError,), dict(key=what), [str(what)])
            else:
                error(r, Attr, (AttributeError,), dict(name=what),
                      [str(what)])

    def get(path, what, key):
        x = build()
        fs = FieldSelector(path)
        check(attempt(fs.get, x), what, key, True)
        expect(fs.get_or_none(x) is None, "not None")
        expect(x == build(), "changed")

    def delete(path, what, key):
        x = build()
        check(attempt(FieldSelector(path).delete, x), what, key, True)
        expect(x == build(), "changed")

    def put(path, what, key):
        x = build()
        r = attempt(FieldSelector(path).put, x, Item(n=3))
        check(r, what, key, False)

    for i, (path, what, key) in enumerate(cases):
        ctx.state()
        n = path.index(what)
        ctx.run((i, "get"), get, path, what, key)
        if n < len(path) - 1 or isinstance(what, int):
            # otherwise, it is a value which can be put there
            if not (path[-1] == what and key == 1 and
                    isinstance(what, str)) and what != "opaque":
                ctx.run((i, "put"), put, path, what, key)
        elif what in ("nosuch", "ro"):
            if what == "ro":
                ctx.run((i, "put"), put, path, what, key)
        if n < len(path) - 1 and None not in path:
            ctx.run((i, "delete"), delete, path, what, key)
        ctx.step(4)

    def vivify():
        """only what has a type can be made"""
        class Un(Record):
            untyped = Property()
            item = Property(isa=Item)
        x = Un()
        for path, what in ((["untyped", "n"], "untyped"),
                           (["item", "opaque", "n"], "opaque"),
                           (["zz", "n"], "zz"), (["item", "zz", "n"], "zz")):
            check(attempt(FieldSelector(path).post, x, 1), what, 0,
                  what == "zz")
            ctx.step()
        r = attempt(FieldSelector(["items", 7, "n"]).post, Top(items=[]), 1)
        expect(r[0] == "exc" and isinstance(r[1], ValueError) and
               "7" in str(r[1]), "%r", r[1])
    ctx.run("vivify", vivify)


# -- the errors themselves ---------------------------------------------------

def own_errors(ctx):
    """errors made with this module's base class, by anybody"""
    fields = ["a", "b", "c"]
    reps = [1, "{}", "%s", None, Odd("{o}"), "caf\u00e9"]

    def make(named, npos):
        parts = ["<{%s}>" % n for n in named] + ["<{%d}>" % i
                                                 for i in range(npos)]
        return type("Mine", (exc.StringFormatException,), {
            "message": " ".join(parts), "__module__": "here"})

    def case(named, npos, given, ngiven, v):
        E = make(named, npos)
        kw = {k: v for k in given}
        args = (v,) * ngiven
        r = attempt(E, *args, **kw)
        missing = [n for n in named if n not in given]
        if not missing and ngiven >= npos:
            expect(r[0] == "ok", "%r", r[1])
            e = r[1]
            want = " ".join(["<%s>" % (v,)] * (len(named) + npos))
            expect(str(e) == want, "%s, not %s", e, want)
            for k in given:
                expect(getattr(e, k) is v, "%s", k)
            for i in range(ngiven):
                expect(e[i] is v, "%d", i)
            expect(attempt(lambda: e[ngiven])[0] == "exc", "has more")
            for k in fields:
                if k not in given:
                    expect(not hasattr(e, k), "has %s", k)
            rep = repr(e)
            expect(rep == "Mine(%s)" % ", ".join(
                [repr(v)] * ngiven + ["%s=%r" % (k, v) for k in given]),
                "%s", rep)
            try:
                raise e
            except exc.NormalizeError as f:
                expect(f is e, "another")
            return
        expect(r[0] == "exc", "accepted")
        e = r[1]
        if missing and ngiven >= npos:
            error(r, exc.KeywordExceptionFormatError, (), dict(
                typename="Mine", missing=missing[0], passed=repr(
                    list(given))), ["Mine", missing[0]])
        elif missing:
            expect(type(e) in (exc.KeywordExceptionFormatError,
                               exc.PositionalExceptionFormatError), "%r", e)
        else:
            error(r, exc.PositionalExceptionFormatError, (), dict(
                typename="Mine", received=repr(args)), ["Mine"])
    for named in subsets(fields):
        for npos in range(3):
            ctx.state()
            for given in subsets(fields):
                for ngiven in range(4):
                    for i, v in enumerate(reps):
                        ctx.run((named, npos, given, ngiven, i), case, named,
                                npos, given, ngiven, v)
                        ctx.step()


def others(ctx):
    """other refusals"""
    class Un(Record):
        k = Property()
        primary_key = [k]

    class Holder(Record):
        u = Property()

    class Two(ListCollection):
        itemtype = Un
        values_ = Property()

    def identity():
        for v in ([], {}, set()):
            error(attempt(record_id, v), exc.IdentityCrisis, (), dict(
                val=v, val_type=type(v), val_type_name=type(v).__name__,
                val_repr=repr(v)), [type(v).__name__, repr(v)])

    def casting():
        for v in (int, str, object, dict, Odd):
            error(attempt(from_json, v, {}), exc.CastTypeError,
                  (TypeError,), dict(badtype=v), [str(v)])

    def options():
        a = Un(k=1)
        error(attempt(lambda: a.diff(a, options=DiffOptions(),
                                     ignore_case=True)),
              exc.DiffOptionsException, (), {}, ["options="])

        def two(a, b):
            return 1
        two.__module__ = "there"
        for f in (two, lambda a, b: 2):
            for kw in ({}, {"required": True}, {"isa": int}):
                error(attempt(lambda: Property(default=f, **kw)),
                      exc.DefaultSignatureError, (), dict(
                          func=f, module=f.__module__, nargs=raised_count(2)),
                      [f.__module__, "2"])
                error(attempt(lambda: Property(compare_as=f, **kw)),
                      exc.CompareAsSignatureError, (), dict(
                          func=f, module=f.__module__, nargs=raised_count(2)),
                      [f.__module__, "2"])
        error(attempt(lambda: Property(bogus="{}")),
              exc.PropertyArgumentNotKnown, (TypeError,), dict(
                  badkwarg="bogus", badkwarg_value="{}", proptype=Property,
                  proptypename="Property"), ["bogus", "Property"])
        for v in ([], {}, set(), bytearray()):
            error(attempt(lambda: Property(v1_none=v)), exc.NoneMutable, (),
                  dict(passed=v), [repr(v)])
        other = Property()
        for bad in (5, other, "zz"):
            r = attempt(lambda: type(Un)("T", (Record,), {
                "n": Property(), "primary_key": [bad]}))
            expect(type(r[1]) is exc.PropertiesNotKnown, "%r", r[1])
            error(r, exc.PropertiesNotKnown, (), dict(
                badprop=repr(bad), proplist=repr([bad])), [repr(bad)])
        for n in ("properties", "eager_properties"):
            error(attempt(lambda: type(Un)("T", (Record,), {n: 1})),
                  exc.ReservedPropertyName, (), dict(attrname=n), [n])

        class C1(Record):
            n = Property()

        class C2(Record):
            n = Property()
        error(attempt(lambda: type(Un)("T", (C1, C2), {})),
              exc.MultipleInheritanceClash, (), dict(
                  prop=C2.properties["n"], typename="T"), ["n", "T"])
    ctx.run("identity", identity)
    ctx.run("casting", casting)
    ctx.run("options", options)
    ctx.step(20)


def raised_count(n):
    @tester
    def test(got):
        expect(got == n, "%r, not %r", got, n)
    return test


def tasks_C37(tier):
    tasks = [("slots/" + k, slots(k)) for k in sorted(kinds())]
    tasks += [("required", required_slots), ("several", several),
              ("unknown", unknown), ("items", collections),
              ("no collections", no_collections), ("subtypes", subtypes),
              ("nested", nested), ("placeholders", placeholders),
              ("selectors", selectors), ("own errors", own_errors),
              ("others", others)]
    return tasks
