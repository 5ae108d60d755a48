"""Reference model of record slots (construction, assignment, deletion, reads)
and the replay of histories against real records.  Used by C01-C05, C33."""
import itertools

from .core import fail, expect, attempt

UNSET = "<unset>"


class Reject(Exception):
    def __init__(self, kind):
        self.kind = kind        # 'type' | 'value' | 'attr' | 'usage' | 'any'


def snapshot(v):
    return (type(v), repr(v))


KIND_BASE = {"type": TypeError, "value": ValueError, "attr": AttributeError}


class Coercer(object):
    """A coerce function which records every call and what it returned."""
    def __init__(self, name, fn):
        self.__name__ = name
        self.fn = fn
        self.calls = []

    def __call__(self, value):
        try:
            rv = self.fn(value)
        except Exception as e:
            self.calls.append((value, e))
            raise
        self.calls.append((value, rv))
        return rv


class Decl(object):
    """What a property declaration means, in plain Python.

    make: function() -> Property;  isa: type, tuple or None;  coerce: function
    (defaults to isa);  log: the Coercer, if calls can be observed;
    default: no argument function giving the default, or None;  kind flags."""
    def __init__(self, make, isa=None, coerce=None, check=None,
                 required=False, default=None, default_obj=False,
                 lazy=False, ro=False, v1=False,
                 v1_none=None, safe=None, log=None, eq=False,
                 default_calls=None, label=""):
        self.make = make
        self.isa = isa
        self.coerce = coerce or isa
        self.check = check
        self.required = required
        self.default = default
        self.default_obj = default_obj
        self.lazy = lazy
        self.ro = ro
        self.v1 = v1
        self.v1_none = v1_none
        if safe is None:
            safe = v1 or (not ro and bool(isa or check or required))
        self.safe = safe
        self.log = log
        self.eq = eq             # values are rebuilt: compare with == only
        self.default_calls = default_calls
        self.label = label

    def accept(self, value, constructing):
        """-> (new value or UNSET, coerced?)   or raises Reject"""
        coerced = False
        if value is None and self.required and not self.isa:
            raise Reject("value")
        if self.isa and not isinstance(value, self.isa):
            fn = self.log.fn if self.log else self.coerce
            try:
                new = fn(value)
            except Exception:
                raise Reject("type")
            coerced = True
            if not isinstance(new, self.isa):
                if constructing and new is None and not self.required:
                    return UNSET, True
                raise Reject("type")
            value = new
        if self.check and not self.check(value):
            raise Reject("value")
        return value, coerced


class System(object):
    """A real record and its model, advanced together."""
    def __init__(self, world):
        self.world = world
        self.obj = None
        self.model = {}
        self.evals = {}

    def same(self, decl, real, model):
        """real must be the model value (the same object where the model knows
        which object it has to be)."""
        if real is model:
            return True
        if type(real) is not type(model):
            return False
        return real == model


class SlotWorld(object):
    def __init__(self, decls, values, record_cls, strict_errors=False,
                 identity=True, observers=None, exc=None, new_sets=None,
                 set_values=None):
        """decls: {slot: Decl};  values: {slot: {key: factory}}"""
        self.decls = decls
        self.values = values
        self.strict = strict_errors
        self.identity = identity
        self.cls = record_cls
        self.observers = observers or {}
        self.exc = exc
        self.new_sets = new_sets
        self.set_values = set_values or values

    # -- alphabet ------------------------------------------------------------
    def initials(self):
        if self.new_sets is not None:
            for kw in self.new_sets:
                yield ("new", tuple(sorted(kw.items())))
            return
        names = sorted(self.decls)
        for combo in itertools.product(
            *[[None] + sorted(self.values[n]) for n in names]
        ):
            yield ("new", tuple(
                (n, k) for n, k in zip(names, combo) if k is not None))

    def ops(self, sys_):
        if sys_.obj is None:
            return
        for n in sorted(self.decls):
            for k in sorted(self.set_values[n]):
                yield ("set", n, k)
            yield ("del", n)
            yield ("get", n)
        for o in sorted(self.observers):
            yield ("obs", o)

    # -- replay --------------------------------------------------------------
    def build(self, hist):
        s = System(self)
        for d in self.decls.values():
            if d.log:
                del d.log.calls[:]
            if d.default_calls is not None:
                del d.default_calls[:]
        s.evals = {n: 0 for n in self.decls}
        for ev in hist:
            self.step(s, ev)
        return s

    def canon(self, s):
        if s.obj is None:
            return "none"
        rv = []
        for n in sorted(self.decls):
            v = s.model[n]
            rv.append((n, type(v).__name__, repr(v), min(s.evals[n], 1)))
        return tuple(rv)

    def check_error(self, kind, e, what):
        if kind == "usage":
            expect(isinstance(e, self.exc.NormalizeError),
                   "%s: refused with %r, which is not a library error",
                   what, e)
            return
        base = KIND_BASE[kind]
        expect(isinstance(e, base),
               "%s: refused with %s (%s), expected a %s", what,
               type(e).__name__, str(e)[:120], base.__name__)

    def check_value(self, d, n, real, model, what):
        if self.identity and not d.eq:
            expect(real is model,
                   "%s: slot %s holds %r (%s), expected the very object %r",
                   what, n, real, type(real).__name__, model)
        else:
            expect(type(real) is type(model) and real == model,
                   "%s: slot %s holds %r, expected %r", what, n, real, model)
        if d.isa:
            expect(isinstance(real, d.isa) or (d.v1 and real is d.v1_none),
                   "%s: slot %s holds %r, not of its declared type",
                   what, n, real)

    def calls_expected(self, d, before, coerced, value, what, actual_new):
        """the coerce function was consulted exactly when needed"""
        if not d.log:
            return
        calls = d.log.calls[before:]
        if coerced:
            expect(len(calls) == 1 and calls[0][0] is value,
                   "%s: coerce called %d times", what, len(calls))
        else:
            expect(not calls, "%s: coerce consulted for a conforming value",
                   what)

    def read(self, s, n, what):
        """Read a slot and compare with the model (evaluating lazy ones in
        both)."""
        d = self.decls[n]
        m = s.model[n]
        if m is not UNSET:
            real = attempt(getattr, s.obj, n)
            expect(real[0] == "ok", "%s: reading %s raised %r, it is set to "
                   "%r", what, n, real[1], m)
            self.check_value(d, n, real[1], m, what)
            return
        if d.lazy:
            # first read
            ncalls = len(d.default_calls) if d.default_calls is not None else 0
            lb = len(d.log.calls) if d.log else 0
            real = attempt(getattr, s.obj, n)
            if d.default_calls is not None:
                expect(len(d.default_calls) == ncalls + 1,
                       "%s: first read of %s evaluated its default %d times",
                       what, n, len(d.default_calls) - ncalls)
                produced = d.default_calls[-1]
            else:
                produced = d.default()
            s.evals[n] += 1
            try:
                new, coerced = d.accept(produced, False)
            except Reject as r:
                expect(real[0] == "exc", "%s: reading %s gave %r, but its "
                       "default does not conform", what, n, real[1])
                if self.strict:
                    self.check_error(r.kind, real[1], what)
                return
            expect(real[0] == "ok", "%s: reading lazy %s raised %r", what, n,
                   real[1])
            if coerced and d.log:
                calls = d.log.calls[lb:]
                expect(len(calls) == 1 and calls[0][0] is produced,
                       "%s: coerce of default called %d times", what,
                       len(calls))
                new = calls[0][1]
            elif coerced and type(real[1]) is type(new) and real[1] == new:
                new = real[1]     # the coerce call cannot be observed
            self.check_value(d, n, real[1], new, what)
            s.model[n] = new
        elif d.v1:
            real = attempt(getattr, s.obj, n)
            expect(real[0] == "ok" and real[1] is d.v1_none,
                   "%s: unset %s reads as %r, expected its null value %r",
                   what, n, real[1], d.v1_none)
        else:
            real = attempt(getattr, s.obj, n)
            expect(real[0] == "exc" and isinstance(real[1], AttributeError),
                   "%s: reading unset %s gave %r", what, n, real[1])

    def verify(self, s, what, skip_lazy=True):
        for n in sorted(self.decls):
            d = self.decls[n]
            if d.lazy and s.model[n] is UNSET:
                continue
            self.read(s, n, what)

    def step(self, s, ev):
        what = repr(ev)
        kind = ev[0]
        if kind == "new":
            self.step_new(s, ev, what)
        elif s.obj is None:
            return
        elif kind == "set":
            self.step_set(s, ev, what)
        elif kind == "del":
            n = ev[1]
            d = self.decls[n]
            try:
                if d.ro:
                    raise Reject("attr")
                if d.safe and d.required:
                    raise Reject("value")
                if s.model[n] is UNSET:
                    if not d.v1:
                        raise Reject("attr")
                expected = None
            except Reject as r:
                expected = r
            real = attempt(delattr, s.obj, n)
            if expected:
                expect(real[0] == "exc", "%s: accepted, expected a refusal",
                       what)
                if self.strict:
                    self.check_error(expected.kind, real[1], what)
                    if not (s.model[n] is UNSET and not d.ro
                            and not d.required):
                        self.check_error("usage", real[1], what)
            else:
                expect(real[0] == "ok", "%s: refused with %r", what, real[1])
                s.model[n] = UNSET
        elif kind == "get":
            self.read(s, ev[1], what)
            self.read(s, ev[1], what + " (again)")
        elif kind == "obs":
            counts = {n: len(d.default_calls) for n, d in self.decls.items()
                      if d.default_calls is not None}
            fn, reads = self.observers[ev[1]]
            if reads:
                # the observation reads every slot: evaluate the model first
                fn(s.obj)
                for n, c in counts.items():
                    d = self.decls[n]
                    extra = len(d.default_calls) - c
                    if s.model[n] is UNSET and d.lazy:
                        expect(extra <= 1, "%s: evaluated the default of %s "
                               "%d times", what, n, extra)
                        if extra:
                            s.evals[n] += 1
                            new, coerced = d.accept(
                                d.default_calls[-1], False)
                            cur = attempt(getattr, s.obj, n)
                            if coerced and cur[0] == "ok" and \
                                    type(cur[1]) is type(new) and \
                                    cur[1] == new:
                                new = cur[1]
                            s.model[n] = new
                    else:
                        expect(extra == 0, "%s: evaluated the default of %s "
                               "though it has a value", what, n)
            else:
                fn(s.obj)
                for n, c in counts.items():
                    expect(len(self.decls[n].default_calls) == c,
                           "%s: evaluated the default of %s", what, n)
        else:
            raise AssertionError(kind)
        if s.obj is not None:
            self.verify(s, "after " + what)

    def step_new(self, s, ev, what):
        kw = {}
        passed = {}
        for n, k in ev[1]:
            passed[n] = kw[n] = self.values[n][k]()
        snaps = {n: snapshot(v) for n, v in passed.items()}
        model = {}
        marks = {n: (len(d.log.calls) if d.log else 0)
                 for n, d in self.decls.items()}
        dmarks = {n: (len(d.default_calls)
                      if d.default_calls is not None else 0)
                  for n, d in self.decls.items()}
        real = attempt(self.cls, **kw)
        for n, v in passed.items():
            expect(snapshot(v) == snaps[n], "%s: changed the value passed in "
                   "for %s to %r", what, n, v)
        rejects = []
        todo = []
        for n in sorted(self.decls):
            d = self.decls[n]
            ncalls = (len(d.default_calls) - dmarks[n]
                      if d.default_calls is not None else 0)
            if n in passed:
                expect(ncalls == 0, "%s: default of %s evaluated though a "
                       "value was passed", what, n)
                value = passed[n]
            elif d.lazy:
                expect(ncalls == 0, "%s: lazy default of %s evaluated by the "
                       "constructor", what, n)
                model[n] = UNSET
                continue
            elif d.default is not None:
                if d.default_calls is not None:
                    if real[0] == "ok":
                        expect(ncalls == 1, "%s: default of %s evaluated %d "
                               "times", what, n, ncalls)
                    value = d.default_calls[-1] if ncalls else d.default()
                else:
                    value = d.default()
            else:
                if d.required:
                    rejects.append("value")
                model[n] = UNSET
                continue
            try:
                new, coerced = d.accept(value, True)
            except Reject as r:
                rejects.append(r.kind)
                continue
            if new is UNSET and d.required:
                rejects.append("value")
                continue
            model[n] = new
            todo.append((n, d, coerced, value))
        if rejects:
            expect(real[0] == "exc", "%s: construction accepted, expected a "
                   "refusal (%s)", what, rejects)
            if self.strict:
                if not any(
                    r == "usage" or isinstance(real[1], KIND_BASE[r])
                    for r in rejects
                ):
                    fail("%s: refused with %r, expected one of %s", what,
                         real[1], rejects)
                self.check_error("usage", real[1], what)
            s.obj = None
            s.model = {}
            return
        expect(real[0] == "ok", "%s: construction refused with %r", what,
               real[1])
        for n, d, coerced, value in todo:
            if d.log:
                calls = d.log.calls[marks[n]:]
                if coerced:
                    expect(len(calls) == 1 and calls[0][0] is value,
                           "%s: coerce of %s called %d times", what, n,
                           len(calls))
                    if model[n] is not UNSET:
                        model[n] = calls[0][1]
                else:
                    expect(not calls, "%s: coerce of %s consulted for a "
                           "conforming value", what, n)
            elif coerced and model[n] is not UNSET:
                # the coerce call cannot be observed: equality only
                cur = attempt(getattr, real[1], n)
                if cur[0] == "ok" and type(cur[1]) is type(model[n]) and \
                        cur[1] == model[n]:
                    model[n] = cur[1]
        s.obj = real[1]
        s.model = model

    def step_set(self, s, ev, what):
        n = ev[1]
        d = self.decls[n]
        value = self.values[n][ev[2]]()
        before = len(d.log.calls) if d.log else 0
        snap = snapshot(value)
        real = attempt(setattr, s.obj, n, value)
        expect(snapshot(value) == snap, "%s: changed the value passed in to "
               "%r", what, value)
        expected = None
        coerced = False
        try:
            if d.ro:
                raise Reject("attr")
            if not d.safe:
                new = value
            else:
                new, coerced = d.accept(value, False)
        except Reject as r:
            if d.v1 and r.kind == "type" and (
                value is None or value == d.v1_none
            ):
                new = UNSET
                if d.required:
                    expected = Reject("value")
            else:
                expected = r
        if expected:
            expect(real[0] == "exc", "%s: accepted, expected a refusal (%s)",
                   what, expected.kind)
            if self.strict:
                self.check_error(expected.kind, real[1], what)
                self.check_error("usage", real[1], what)
            return
        expect(real[0] == "ok", "%s: refused with %r", what, real[1])
        if d.log and d.safe and new is not UNSET:
            calls = d.log.calls[before:]
            if coerced:
                expect(len(calls) == 1 and calls[0][0] is value,
                       "%s: coerce called %d times", what, len(calls))
                new = calls[0][1]
            else:
                expect(not calls, "%s: coerce consulted for a conforming "
                       "value", what)
        elif coerced and new is not UNSET:
            cur = attempt(getattr, s.obj, n)
            if cur[0] == "ok" and type(cur[1]) is type(new) and cur[1] == new:
                new = cur[1]
        s.model[n] = new
