"""Explorer core: bounded exhaustive exploration of the real library.

A check is a list of *tasks*; each task enumerates *cases* (a case is one
complete history: build the objects, run the operations, compare with the
reference model) and runs every one of them through ``ctx.run``.  Tasks run in
their own forked process, in parallel.  Nothing is sampled: a task either
enumerates its whole space or raises ``Capped``.
"""
import collections
import hashlib
import itertools
import json
import os
import resource
import signal
import sys
import time
import traceback
import multiprocessing
import multiprocessing.connection

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_SECONDS = 60        # a case takes microseconds to milliseconds
MEM_LIMIT = 6 << 30
MAX_VIOLATIONS_PER_TASK = int(os.environ.get("MC_MAXV", 3))


class Violation(Exception):
    """The property does not hold on this case."""
    def __init__(self, what, key=None):
        super().__init__(what)
        self.what = what
        self.key = key


class Hang(BaseException):
    pass


class Capped(Exception):
    """An exploration bound meant as a safety net was hit."""


def fail(what, *args, key=None):
    raise Violation(what % args if args else what, key=key)


def expect(cond, what, *args, key=None):
    if not cond:
        raise Violation(what % args if args else what, key=key)


def attempt(f, *a, **kw):
    """Run f; returns ('ok', value) or ('exc', exception)."""
    try:
        return ("ok", f(*a, **kw))
    except Hang:
        raise
    except Exception as e:
        return ("exc", e)


class Ctx(object):
    def __init__(self, task_name, tier, replay=None):
        self.task = task_name
        self.tier = tier
        self.thorough = tier == "thorough"
        self.replay = replay
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.bounds = {}
        self._stride = 1
        self.stop = False
        self._hist = None

    # -- counters -----------------------------------------------------------
    def step(self, n=1):
        """n operations of the implementation executed and checked"""
        self.transitions += n

    def state(self, n=1):
        self.states += n

    def outcome(self, label):
        self.outcomes[label] += 1

    def bound(self, **kw):
        self.bounds.update(kw)

    # -- cases --------------------------------------------------------------
    def run(self, spec, fn, *args):
        """Run one case.  ``spec`` identifies it (its repr is the replay
        key); an exception escaping from fn is a violation, as the reference
        model says which exceptions are expected."""
        if self.stop:
            return None
        if self.replay is not None and repr(spec) != self.replay:
            return None
        self.traces += 1
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
        try:
            rv = fn(*args)
        except Capped:
            raise
        except Violation as e:
            self._violation(spec, e.what, e.key, traceback.format_exc())
            return None
        except Hang:
            self._violation(
                spec, "does not terminate (over %ds of CPU time)" %
                CASE_CPU_SECONDS, None, traceback.format_exc())
            self.stop = True
            return None
        except MemoryError:
            self._violation(spec, "runs out of memory", None,
                            traceback.format_exc())
            self.stop = True
            return None
        except Exception as e:
            self._violation(
                spec, "unexpected %s: %s" % (type(e).__name__, str(e)[:300]),
                None, traceback.format_exc())
            return None
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if self.traces == self._stride:
            self._stride *= 4
            if len(self.samples) < 6:
                self.samples.append(repr(spec)[:300])
        return rv

    def _violation(self, spec, what, key, tb):
        self.violations.append(dict(
            task=self.task, spec=repr(spec), what=what,
            key=key or "", traceback=tb))
        if len(self.violations) >= MAX_VIOLATIONS_PER_TASK:
            self.stop = True

    # -- explicit-state search over operation histories ----------------------
    def bfs(self, name, initials, ops, build, canon, depth, invariant=None,
            max_states=200000):
        """Breadth first search over histories.

        ``initials``: list of initial events;  ``ops``: function of the built
        system giving the events enabled there;  ``build(hist)``: replays a
        history on fresh real objects, comparing with the model at every step
        (raises Violation);  ``canon``: hashable canonical form of the built
        system, which must determine all its futures;  ``invariant``: extra
        check in every distinct state.  Returns histories of distinct states.
        """
        seen = {}
        frontier = collections.deque()
        reached = []
        maxd = 0

        def visit(hist):
            sys_ = build(hist)
            self.transitions += len(hist)
            return (sys_, canon(sys_))

        for ev in initials:
            r = self.run((name, [ev]), visit, [ev])
            if r is None:
                continue
            if r[1] not in seen:
                seen[r[1]] = True
                frontier.append([ev])
                reached.append([ev])
        complete = True
        while frontier and not self.stop:
            hist = frontier.popleft()
            if len(hist) > depth:
                complete = False
                continue
            r = build(hist)
            for ev in ops(r):
                h2 = hist + [ev]
                r2 = self.run((name, h2), visit, h2)
                if r2 is None:
                    if self.stop:
                        break
                    continue
                if r2[1] not in seen:
                    if len(seen) >= max_states:
                        raise Capped("%s: over %d states" % (name, max_states))
                    seen[r2[1]] = True
                    reached.append(h2)
                    maxd = max(maxd, len(h2))
                    frontier.append(h2)
                    if invariant:
                        self.run((name, "invariant", h2),
                                 lambda: invariant(build(h2)))
        self.states += len(seen)
        self.bounds["%s_depth" % name] = depth
        self.bounds["%s_states" % name] = len(seen)
        self.bounds["%s_closed" % name] = complete
        return reached

    def paths(self, name, initials, ops, build, depth):
        """All operation sequences up to ``depth`` without merging states, so
        that no abstraction is trusted."""
        def go(hist):
            r = self.run((name, hist), build, hist)
            self.transitions += len(hist)
            if r is None or len(hist) > depth:
                return
            for ev in ops(r):
                if self.stop:
                    return
                go(hist + [ev])
        for ev in initials:
            go([ev])
        self.bounds["%s_unmerged_depth" % name] = depth


def subsets(seq, maxlen=None):
    seq = list(seq)
    for n in range(0, (len(seq) if maxlen is None else maxlen) + 1):
        for c in itertools.combinations(seq, n):
            yield c


def _arm():
    def on_alarm(signum, frame):
        raise Hang()
    signal.signal(signal.SIGVTALRM, on_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))


def _run_task(task, tier, replay, conn):
    name, fn = task
    ctx = Ctx(name, tier, replay)
    t0 = time.time()
    capped = None
    crash = None
    try:
        _arm()
        import gc
        gc.freeze()
        fn(ctx)
    except Capped as e:
        capped = str(e)
    except Violation as e:
        # raised outside of a case: while building the task's own objects
        ctx._violation(("setup",), e.what, e.key, traceback.format_exc())
    except BaseException as e:
        # declaring the record types of this world, or probing it, failed:
        # the library refused something it is required to support
        ctx._violation(("setup",), "unexpected %s: %s" % (
            type(e).__name__, str(e)[:300]), None, traceback.format_exc())
        crash = None
    conn.send(dict(
        name=name, states=ctx.states, transitions=ctx.transitions,
        traces=ctx.traces, outcomes=dict(ctx.outcomes), samples=ctx.samples,
        violations=ctx.violations, bounds=ctx.bounds, capped=capped,
        crash=crash, wall=time.time() - t0))
    conn.close()


# how long a run which has found a violation goes on: to start further tasks,
# and to wait for those running
ENOUGH_SECONDS = (60, 240)


def run_tasks(tasks, tier, replay=None, jobs=None):
    """tasks: list of (name, function(ctx)); runs each in a forked process."""
    jobs = jobs or min(8, os.cpu_count() or 1)
    mp = multiprocessing.get_context("fork")
    pending = list(tasks)
    running = []
    began = time.time()
    found = False
    results = {}
    while pending or running:
        while pending and len(running) < jobs:
            t = pending.pop(0)
            r, w = mp.Pipe(duplex=False)
            p = mp.Process(target=_run_task, args=(t, tier, replay, w))
            p.start()
            w.close()
            running.append((t, p, r))
        ready = multiprocessing.connection.wait(
            [r for _, _, r in running], timeout=5)
        still = []
        for t, p, r in running:
            if r in ready:
                try:
                    results[t[0]] = r.recv()
                    if any(not v["key"] for v in results[t[0]]["violations"]):
                        found = True
                except EOFError:
                    results[t[0]] = dict(
                        name=t[0], states=0, transitions=0, traces=0,
                        outcomes={}, samples=[], violations=[], bounds={},
                        capped=None, wall=0,
                        crash="task process died (exit %s)" % p.exitcode)
                r.close()
                p.join()
            else:
                still.append((t, p, r))
        running = still
        if found and (time.time() - began > ENOUGH_SECONDS[0] or
                      os.environ.get("MC_FIRST")):
            # the verdict is settled: start nothing more, and do not wait
            # much longer for what is running
            pending = []
            if time.time() - began > ENOUGH_SECONDS[1]:
                for t, p, r in running:
                    p.terminate()
                    p.join()
                    r.close()
                    results[t[0]] = dict(
                        name=t[0], states=0, transitions=0, traces=0,
                        outcomes={}, samples=[], violations=[], bounds={},
                        capped="stopped after a violation elsewhere", wall=0,
                        crash=None)
                running = []
    return [results[t[0]] for t in tasks if t[0] in results]


def forked(fn, *args):
    """Run fn in a forked copy of this process and return its (repr-able)
    result; the library-wide state of this process is not affected.
    Violations raised there are raised here."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except Violation as e:
                out = ("violation", (e.what, e.key))
            except Hang:
                out = ("violation", ("does not terminate", None))
            except BaseException as e:
                out = ("violation", ("unexpected %s: %s\n%s" % (
                    type(e).__name__, str(e)[:300],
                    traceback.format_exc()[-1500:]), None))
            data = json.dumps(out).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        try:
            b = os.read(r, 1 << 16)
        except InterruptedError:
            continue
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if status or not chunks:
        fail("the forked case died with status %s", status)
    kind, value = json.loads(b"".join(chunks))
    if kind == "violation":
        fail("%s", value[0], key=value[1])
    return value
