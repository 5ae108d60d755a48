"""C36: declarations which cannot work; C37: what the errors say."""
import itertools

from normalize import (
    DictCollection, DictProperty, JsonDictProperty, JsonListProperty,
    JsonRecord, JsonRecordList, ListCollection, ListProperty, Property,
    Record, FieldSelector, from_json,
)
from normalize import exc
from normalize.property import (
    LazyProperty, LazySafeProperty, ROLazyProperty, ROProperty,
    SafeProperty, V1Property, make_property_type,
)
from normalize.coll import Collection, dict_of, list_of
from normalize.property import types as PT
from normalize.property.coll import CollectionProperty
from normalize.property.json import JsonProperty
from normalize.record.json import JsonRecordDict
from normalize.selector import MultiFieldSelector
from normalize.subtype import subtype

from .c_types import OPTS, PBASE, PKINDS, all_opts, option_kwargs, probe
from .core import attempt, expect, fail, subsets


def two(a, b):
    return 1


def self_two(self, b):
    return 1


class Alien(Record):
    z = Property()


# -- C36 ---------------------------------------------------------------------

# what is wrong -> arguments, or a function of the property class; the errors
WRONG = {
    "unknown argument": (dict(bogus=1), exc.PropertyArgumentNotKnown),
    "unknown arguments": (dict(bogus=None, wrong=2),
                          exc.PropertyArgumentNotKnown),
    "misspelt": (dict(required_=True), exc.PropertyArgumentNotKnown),
    "unknown trait": (dict(traits=["nosuch"]),
                      exc.PropertyTypeMixinNotPossible),
    "one unknown trait": (dict(traits=["nosuch", "json"]),
                          exc.PropertyTypeMixinNotPossible),
    "default wants two": (dict(default=two), exc.DefaultSignatureError),
    "default wants self and another": (dict(default=self_two),
                                       exc.DefaultSignatureError),
    "default wants two, given one": (dict(default=lambda a, b, c=1: 1),
                                     exc.DefaultSignatureError),
    "comparison wants two": (dict(compare_as=two),
                             exc.CompareAsSignatureError),
    "comparison wants self and two": (
        dict(compare_as=lambda self, a, b: 1), exc.CompareAsSignatureError),
    "not lazy": (dict(lazy=False), exc.LazyIsFalse),
    "nor lazy": (dict(lazy=0), exc.LazyIsFalse),
    "mutable null": (dict(v1_none=[]), exc.NoneMutable),
    "another mutable null": (dict(v1_none={1}), exc.NoneMutable),
}
COERCE = ("coerce=", (dict(coerce=int), exc.CoerceWithoutType))
# arguments which are fine by themselves
FINE = {
    "required": dict(required=True),
    "check": dict(check=lambda v: v != 7),
    "extraneous": dict(extraneous=True),
    "json": dict(json_name="J"),
    "doc": dict(doc="text"),
    "empty_attr": dict(empty_attr="e"),
    "isa": dict(isa=int),
    "default": dict(default=lambda: 3),
    "compare_as": dict(compare_as=lambda v: v),
    "null": dict(v1_none=None),
    "lazy": dict(lazy=True, default=lambda: 3),
    "ro": dict(traits=["ro"]),
}
CLASSES = {
    "Property": (Property, {}),
    "ListProperty": (ListProperty, dict(of=int)),
    "JsonDictProperty": (JsonDictProperty, dict(of=int)),
    "IntProperty": (PT.IntProperty, {}),
    "SafeProperty": (SafeProperty, {}),
}


def merged(*many):
    kw = {}
    for d in many:
        for k, v in d.items():
            if k == "traits" and k in kw:
                v = kw[k] + v
            elif k in kw:
                return None     # one says what another does
            kw[k] = v
    return kw


def refused(what, kw, cls, types):
    r = attempt(cls, **kw)
    expect(r[0] == "exc" and type(r[1]) in types, "%s: %s(%s): %r, expected "
           "%s", what, cls.__name__, ", ".join(sorted(kw)), r[1],
           " or ".join(t.__name__ for t in types))
    expect(isinstance(r[1], exc.NormalizeError) and str(r[1]) == str(r[1])
           and str(r[1]), "%s: no message", what)


def tasks_C36(tier):
    tasks = []

    def options(cname):
        cls, base = CLASSES[cname]

        def run(ctx):
            wrong = dict(WRONG)
            if cname in ("Property", "SafeProperty"):
                wrong[COERCE[0]] = COERCE[1]
                wrong["of what"] = (dict(list_of=None), exc.ListOfWhat)
                wrong["of which"] = (dict(dict_of=None), exc.DictOfWhat)
            names = sorted(FINE)
            if not ctx.thorough:
                names = [n for n in names if n not in (
                    "doc", "check", "empty_attr")]
            for w, (bad, error) in sorted(wrong.items()):
                for n in range(len(names) + 1 if ctx.thorough else 4):
                    for fine in itertools.combinations(names, n):
                        good = merged(base, *[FINE[f] for f in fine])
                        if good is None:
                            continue
                        if "isa" in good and "of" in good:
                            continue
                        kw = merged(good, bad)
                        if kw is None:
                            continue
                        if error is exc.CoerceWithoutType and "isa" in kw:
                            continue
                        if w in ("of what", "of which") and "isa" in kw:
                            continue
                        if isinstance(kw.get("default", 0), str):
                            continue
                        ctx.run((cname, w, fine), refused, w, kw, cls,
                                (error,))
                        ctx.step()
                ctx.state()
            # two things at once
            for (w, (bad, e1)), (w2, (bad2, e2)) in itertools.combinations(
                    sorted(wrong.items()), 2):
                kw = merged(base, bad, bad2)
                if kw is not None:
                    errors = (e1, e2)
                    if exc.AmbiguousPropertyTraitArg in errors:
                        continue
                    ctx.run((cname, w, w2), refused, w, kw, cls, errors)
                    ctx.step()
        return run
    for cname in CLASSES:
        tasks.append(("arguments/" + cname, options(cname)))
    tasks.append(("other declarations", others))
    tasks.append(("records", records))
    tasks.append(("names of collection types", generic_names))
    for kind in sorted(PKINDS):
        tasks.append(("no trace/" + kind, no_trace(kind)))
    return tasks


def others(ctx):
    """declarations of other things"""
    class Half(ListCollection):
        pass

    class HalfDict(DictCollection):
        pass

    class HalfJson(JsonRecordList):
        itemtype = None

    class HalfJsonDict(JsonRecordDict):
        itemtype = None

    class Ints(ListCollection):
        itemtype = int

    class OneWay(Property):
        """a trait"""
        __trait__ = "one_way"

        def __init__(self, shared_arg=None, **kwargs):
            super(OneWay, self).__init__(**kwargs)

    class OtherWay(Property):
        """a trait which has the same argument"""
        __trait__ = "other_way"

        def __init__(self, shared_arg=None, **kwargs):
            super(OtherWay, self).__init__(**kwargs)

    def clashing(trait, arg):
        """a property type for a trait which there is already"""
        ns = {"__trait__": trait}
        exec("def __init__(self, %s=None, **kwargs):\n"
             "    Property.__init__(self, **kwargs)" % arg,
             {"Property": Property}, ns)
        return type(Property)("Clashing", (Property,), ns)

    def usable():
        for cls in (OneWay, OtherWay):
            expect(isinstance(cls(shared_arg=1), cls), "%s", cls)

    E = exc
    cases = [
        ("positional", lambda: Property(int),
         E.PositionalArgumentsProhibited),
        ("positional and not", lambda: Property(int, isa=int),
         E.PositionalArgumentsProhibited),
        ("positional list", lambda: ListProperty(int),
         E.PositionalArgumentsProhibited),
        ("positional lazy", lambda: LazyProperty(True),
         E.PositionalArgumentsProhibited),
        ("positional made", lambda: PT.IntProperty(3),
         E.PositionalArgumentsProhibited),
        ("of=, of what", lambda: Property(of=int), E.CollRequiredError),
        ("of=, of what, safely", lambda: Property(of=int, required=True),
         E.CollRequiredError),
        ("ambiguous", lambda: Property(shared_arg=int),
         E.AmbiguousPropertyTraitArg),
        ("ambiguous safe", lambda: Property(shared_arg=int, required=True),
         E.AmbiguousPropertyTraitArg),
        ("ambiguous list", lambda: ListProperty(shared_arg=int, of=int),
         E.AmbiguousPropertyTraitArg),
        ("list of what", lambda: ListProperty(), E.ListOfWhat),
        ("list of nothing", lambda: ListProperty(of=None), E.ListOfWhat),
        ("list of what, with json", lambda: JsonListProperty(json_name="x"),
         E.ListOfWhat),
        ("dict of what", lambda: DictProperty(), E.DictOfWhat),
        ("dict of nothing", lambda: DictProperty(of=None), E.DictOfWhat),
        ("dict of what, with json", lambda: JsonDictProperty(
            required=True), E.DictOfWhat),
        ("list in dict", lambda: ListProperty(of=int, coll=DictCollection),
         E.ListPropertyMustDeriveListCollection),
        ("list in record", lambda: ListProperty(of=int, coll=Record),
         E.ListPropertyMustDeriveListCollection),
        ("dict in list", lambda: DictProperty(of=int, coll=ListCollection),
         E.DictPropertyMustDeriveDictCollection),
        ("dict in json list", lambda: DictProperty(
            of=int, coll=JsonRecordList),
         E.DictPropertyMustDeriveDictCollection),
        ("coll of what", lambda: CollectionProperty(of=int),
         E.CollRequiredError),
        ("coll mismatch", lambda: CollectionProperty(
            isa=Ints, coll=DictCollection), E.CollTypeMismatch),
        ("item mismatch", lambda: CollectionProperty(isa=Ints, of=str),
         E.CollTypeMismatch),
        ("instance of a class without items", lambda: Half([1]),
         E.CollectionDefinitionError),
        ("dict without items", lambda: HalfDict({"a": 1}),
         E.CollectionDefinitionError),
        ("json list without items", lambda: HalfJson([1]),
         E.CollectionDefinitionError),
        ("json dict without items", lambda: HalfJsonDict({"a": 1}),
         E.CollectionDefinitionError),
        ("items of what", lambda: Collection([1]),
         E.CollectionDefinitionError),
        ("subtype of a value", lambda: subtype("S", of=5, where=len),
         E.SubtypeOfWhat),
        ("subtype of text", lambda: subtype("S", of="int", where=len),
         E.SubtypeOfWhat),
        ("subtype of several", lambda: subtype(
            "S", of=(int, str), where=len), E.SubtypeOfWhat),
        ("same trait again", lambda: make_property_type(
            "Again", trait_name="lazy"), E.PropertyTypeClash),
        ("type of the same trait", lambda: clashing("lazy", "hurry"),
         E.PropertyTypeClash),
        ("argument of a refused type", lambda: Property(hurry=True),
         E.PropertyArgumentNotKnown),
        ("argument of a refused type, safely", lambda: SafeProperty(
            hurry=None), E.PropertyArgumentNotKnown),
        ("list argument of a refused type", lambda: ListProperty(
            hurry=None, of=int), E.PropertyArgumentNotKnown),
        ("type of the same combination", lambda: type(Property)(
            "Again", (LazyProperty, SafeProperty), {}), E.PropertyTypeClash),
        ("ambiguous construction", lambda: Alien({"z": 1}, z=2),
         E.AmbiguousConstruction),
        ("unknown keyword", lambda: Alien(q=2), E.PropertyNotKnown),
        ("unknown in dict", lambda: Alien({"q": 2}), E.PropertyNotKnown),
        ("not a record type", lambda: from_json(int, 3), E.CastTypeError),
        ("lazy=False", lambda: LazySafeProperty(lazy=False), E.LazyIsFalse),
        ("read-only lazy=False", lambda: ROLazyProperty(
            lazy=False, default=lambda: 1), E.LazyIsFalse),
        ("v1 mutable", lambda: V1Property(v1_none={}), E.NoneMutable),
        ("safe trait unknown", lambda: SafeProperty(traits=["zz"]),
         E.PropertyTypeMixinNotPossible),
        ("trait of no type", lambda: ROProperty(traits=["a", "b"]),
         E.PropertyTypeMixinNotPossible),
    ]

    def case(what, f, error, again):
        usable()
        for i in range(again):
            r = attempt(f)
            expect(r[0] == "exc" and type(r[1]) is error,
                   "%s: %r, expected %s", what, r[1], error.__name__)
            ctx.step()
    for what, f, error in cases:
        ctx.state()
        ctx.run(what, case, what, f, error, 2)
    # in every order of two
    for (w1, f1, e1), (w2, f2, e2) in itertools.permutations(cases, 2):
        def pair():
            case(w1, f1, e1, 1)
            case(w2, f2, e2, 1)
        ctx.run((w1, w2), pair)


def generic_names(ctx):
    """collection types made for properties are known by the names of the
    classes: others of the same names are refused, not taken for each other"""
    seq = itertools.count()

    def case(kind, order):
        n = "%s%d" % (kind, next(seq))
        Prop, base, data = {
            "list": (ListProperty, ListCollection, lambda x: [x, x]),
            "dict": (DictProperty, DictCollection, lambda x: {"a": x}),
            "json": (JsonListProperty, JsonRecordList, lambda x: [x])}[kind]
        items = [type("It" + n, (Record,), dict(
            number=k, a=Property(), __module__=__name__)) for k in range(2)]
        items.append(type("Jt" + n, (Record,), dict(
            number=2, a=Property(), __module__=__name__)))
        colls = [type("Co" + n, (base,), dict(number=k)) for k in range(2)]
        colls.append(type("Co" + n, (colls[0],), dict(number=2)))
        colls.append(type("Do" + n, (base,), dict(number=3)))
        made = {}
        for step, (i, c) in enumerate(order):
            of, coll = items[i], colls[c]
            key = of.__name__, coll.__name__
            r = attempt(lambda: Prop(of=of, coll=coll))
            what = "%s of %s: %r" % (kind, order[:step + 1], r)
            if made.setdefault(key, (i, c)) == (i, c):
                expect(r[0] == "ok", "%s", what)
                T = type("R", (Record,), dict(p=r[1]))
                got = T(p=data(of(a=1))).p
                expect(type(got).number == c and isinstance(got, coll) and
                       type(got).itemtype is of and
                       isinstance(list(got.itertuples())[0][1], of),
                       "%s: %r", what, got)
            else:
                expect(r[0] == "exc" and type(r[1]) is exc.PropertyNotUnique,
                       "%s", what)
            ctx.step()
    pairs = list(itertools.product(range(3), range(4)))
    for kind in ("list", "dict", "json"):
        for n in (1, 2, 3):
            for order in itertools.product(pairs, repeat=n):
                if n == 3 and not ctx.thorough and (
                        order[0] > (0, 2) or 3 in (order[1][1], order[2][1])):
                    continue
                ctx.run((kind, order), case, kind, order)
                ctx.state()


def records(ctx):
    """record types"""
    class A(Record):
        a = Property(isa=int)
        k = Property()
        primary_key = [k]

    class B(Record):
        a = Property()

    class Sub(A):
        s = Property()

    class L(ListCollection):
        itemtype = int
        a = Property()

    class Elsewhere(Record):
        n = Property()
        m = Property()

    def works():
        expect(sorted(A.properties) == ["a", "k"] and
               A.primary_key == (A.properties["k"],), "A changed")
        expect(sorted(Sub.properties) == ["a", "k", "s"], "Sub changed")
        x = Sub(a=3, s=1)
        expect(x.a == 3 and x.s == 1 and A(a=4).a == 4, "A does not work")
        r = attempt(setattr, x, "a", "no")
        expect(r[0] == "exc" and isinstance(r[1], TypeError), "unchecked")
        expect(attempt(A, s=1)[0] == "exc", "A has s")
        expect(B(a="x") == B(a="x") != B(a="y"), "B does not work")
        expect(L([1], a=2).a == 2, "L does not work")
        expect(A.properties["a"].fullname == "A.a" and
               Sub.properties["a"].fullname == "A.a" and
               B.properties["a"].fullname == "B.a", "%s %s",
               A.properties["a"].fullname, B.properties["a"].fullname)

    def body(**kw):
        return dict(kw)
    bases = {"none": (Record,), "A": (A,), "Sub": (Sub,), "L": (L,),
             "Json": (JsonRecord,)}
    extra = [{}, {"n": lambda: Property(isa=int)},
             {"a": lambda: Property(isa=str)},
             {"n": lambda: ListProperty(of=int),
              "m": lambda: Property(required=True)}]
    bads = [
        ("reserved", lambda: {"properties": {}}, exc.ReservedPropertyName),
        ("reserved property", lambda: {"properties": Property()},
         exc.ReservedPropertyName),
        ("reserved eager", lambda: {"eager_properties": ()},
         exc.ReservedPropertyName),
        ("key of another", lambda: {"primary_key": [Alien.properties["z"]]},
         exc.PropertiesNotKnown),
        ("key of another with the same name", lambda: {
            "n": Property(), "primary_key": [Elsewhere.properties["n"]]},
         exc.PropertiesNotKnown),
        ("key redefined", lambda: {
            "a": Property(), "primary_key": [A.properties["a"]]},
         exc.PropertiesNotKnown),
        ("keys of two", lambda: {
            "n": Property(), "primary_key": ["n", B.properties["a"]]},
         exc.PropertiesNotKnown),
        ("key of none", lambda: {"primary_key": [Property()]},
         exc.PropertiesNotKnown),
        ("key not a property", lambda: {"primary_key": [5]},
         exc.PropertiesNotKnown),
        ("key of nothing", lambda: {"primary_key": [None]},
         exc.PropertiesNotKnown),
        ("key misspelt", lambda: {"primary_key": ["nosuch"]},
         exc.PropertiesNotKnown),
        ("keys misspelt", lambda: {"primary_key": ["n", "nosuch"]},
         exc.PropertiesNotKnown),
        ("two keys", lambda: {"primary_key": ["nosuch", 5]},
         exc.PropertiesNotKnown),
    ]

    def case(bname, more, what, bad, error):
        attrs = {k: f() for k, f in more.items()}
        attrs.update(bad())
        r = attempt(lambda: type(A)("T", bases[bname], attrs))
        expect(r[0] == "exc" and type(r[1]) is error, "%s: %r, expected %s",
               what, r[1], error.__name__)
        works()
        # and without it, it is fine
        attrs = {k: f() for k, f in more.items()}
        r = attempt(lambda: type(A)("T", bases[bname], attrs))
        expect(r[0] == "ok", "without %s: %r", what, r[1])
        for k in attrs:
            if isinstance(attrs[k], Property):
                expect(r[1].properties[k] is attrs[k], "%s", r[1].properties)
        works()
        ctx.step(2)
    for bname in bases:
        for i, more in enumerate(extra):
            for what, bad, error in bads:
                ctx.state()
                ctx.run((bname, i, what), case, bname, more, what, bad,
                        error)

    def clash(order, attrs):
        r = attempt(lambda: type(A)("T", order, attrs))
        expect(r[0] == "exc" and type(r[1]) is exc.MultipleInheritanceClash,
               "%r", r[1])
        works()
        ctx.step()
    for order in itertools.permutations((A, B)):
        for attrs in ({}, {"n": Property()}, {"a": Property()}):
            ctx.run(("clash", [c.__name__ for c in order], sorted(attrs)),
                    clash, order, attrs)
    for order in ((Sub, B), (B, Sub), (B, L), (L, B)):
        ctx.run(("clash", [c.__name__ for c in order]), clash, order, {})

    def keys():
        """all the right ways to give a key"""
        for pk in (["n"], ("n",), ["n", "m"], ["m", "n"]):
            n, m = Property(), Property()
            T = type(A)("T", (Record,), dict(n=n, m=m, primary_key=pk))
            want = tuple({"n": n, "m": m}[x] for x in pk)
            expect(T.primary_key == want, "%s: %s", pk, T.primary_key)
            T = type(A)("T", (Record,), dict(n=n, m=m, primary_key=[
                {"n": n, "m": m}[x] for x in pk]))
            expect(T.primary_key == want, "%s: %s", pk, T.primary_key)
            ctx.step(2)
        T = type(A)("T", (A,), dict(n=Property(), primary_key=["n", "a"]))
        expect(T.primary_key == (T.properties["n"], A.properties["a"]),
               "%s", T.primary_key)
    ctx.run("keys", keys)


def no_trace(kind):
    """what is declared after a refusal is what it would be without it, and
    so is what was declared before"""
    def run(ctx):
        cls = PBASE[kind]
        base = option_kwargs(kind, (), [])
        wrong = sorted(WRONG)

        def case(opts, w):
            log, log2 = [], []
            before = cls(**option_kwargs(kind, opts, log))
            bad, error = WRONG[w]
            kw = dict(option_kwargs(kind, opts, log2))
            for k, v in bad.items():
                kw[k] = kw[k] + v if k == "traits" and k in kw else v
            r = attempt(cls, **kw)
            expect(r[0] == "exc" and isinstance(r[1], exc.NormalizeError),
                   "%s: %r", w, r[1])
            after = cls(**option_kwargs(kind, opts, log2))
            expect(type(after) is type(before), "%s, not %s", after, before)
            probe(kind, opts, after, log2)
            probe(kind, opts, before, log)
            ctx.step(2)
        for opts in all_opts():
            if not ctx.thorough and len(opts) > 3:
                continue
            if attempt(lambda: cls(**option_kwargs(kind, opts, [])))[0] != \
                    "ok":
                continue
            for w in wrong:
                if not ctx.thorough and (len(w) + len(opts)) % 3 and \
                        len(opts) > 1:
                    continue
                ctx.run((kind, opts, w), case, opts, w)
            ctx.state()
    return run
