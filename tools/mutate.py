#!/opt/venv/bin/python
"""Mutates the library, keeps the mutants the stable tests do not notice, and
runs the checks against them: finds out what the checks do not see.

  mutate.py list FILE              how many mutants
  mutate.py tests FILE OUT.json    mutants of FILE which pass the stable tests
  mutate.py check OUT.json C18,C19 [STRIDE [OFFSET]]

With MUT_OPS=2, other kinds of changes: wrong variables, swapped arguments.

A tool for development only; no check uses it."""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"

CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
       ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add}


def mutations(tree):
    """yields (description, function that changes a copy of the tree)"""
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        line = getattr(n, "lineno", 0)

        def m(what, f, i=i, line=line):
            return ("%d %s" % (line, what), i, f)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP[type(n.ops[0])]

            def f(x, o=o):
                x.ops = [o()]
            yield m("%s -> %s" % (type(n.ops[0]).__name__, o.__name__), f)
        elif isinstance(n, ast.BoolOp):
            def f(x):
                x.op = ast.And() if isinstance(x.op, ast.Or) else ast.Or()
            yield m("and/or", f)
            for k in range(len(n.values)):
                def f(x, k=k):
                    x.values.pop(k)
                    if len(x.values) == 1:
                        x.values.append(x.values[0])
                yield m("drop operand %d" % k, f)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def f(x):
                x.op, x.operand = ast.Not(), ast.UnaryOp(ast.Not(), x.operand)
            yield m("drop not", f)
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for v in (True, False):
                if isinstance(n, ast.While) and v:
                    continue

                def f(x, v=v):
                    x.test = ast.Constant(v)
                yield m("%s %s" % (type(n).__name__.lower(), v), f)
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                def f(x):
                    x.value = not x.value
                yield m("const not %r" % n.value, f)
            elif isinstance(n.value, int):
                def f(x):
                    x.value += 1
                yield m("const %r+1" % n.value, f)
            elif n.value is None:
                pass
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            def f(x):
                x.op = BIN[type(x.op)]()
            yield m("+/-", f)
        elif isinstance(n, ast.Return) and n.value is not None and not (
                isinstance(n.value, ast.Constant) and n.value.value is None):
            def f(x):
                x.value = ast.Constant(None)
            yield m("return None", f)
        elif isinstance(n, (ast.Continue, ast.Break)):
            yield m("pass", None)
        elif isinstance(n, ast.Raise):
            yield m("no raise", None)
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            yield m("drop statement", None)
        elif isinstance(n, ast.ExceptHandler):
            def f(x):
                x.body = [ast.Raise()]
            yield m("except: raise", f)
        elif isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    def f(x, k=k):
                        x.keywords.pop(k)
                    yield m("drop argument %s" % n.keywords[k].arg, f)
            if isinstance(n.func, ast.Name) and n.func.id in (
                    "list", "tuple", "dict", "set", "sorted", "str") and \
                    len(n.args) == 1 and not n.keywords:
                def f(x):
                    x.func, x.keywords = ast.Lambda(ast.arguments(
                        [], [ast.arg("x")], None, [], [], None, []),
                        ast.Name("x", ast.Load())), []
                yield m("%s() -> identity" % n.func.id, f)


SIDES = [("a", "b"), ("base", "other"), ("removed", "added"),
         ("key", "value"), ("k", "v"), ("keys", "values"), ("head", "tail"),
         ("attr", "prop"), ("args", "kwargs"), ("self", "other"),
         ("self", "cls"), ("self", "obj"), ("type_", "itemtype"),
         ("name", "json_name"), ("val", "value"), ("x", "y"),
         ("start", "stop"), ("start", "end"), ("i", "j")]


def sibling(name, names):
    """the other names which one may be taken for"""
    rv = set()
    parts = name.split("_")
    for x, y in SIDES + [(y, x) for x, y in SIDES]:
        for k, p in enumerate(parts):
            if p == x:
                rv.add("_".join(parts[:k] + [y] + parts[k + 1:]))
        if name == x:
            rv.add(y)
    for o in names:
        if o != name and (o.startswith(name + "_") or
                          name.startswith(o + "_") or
                          o.endswith("_" + name) or name.endswith("_" + o) or
                          o + "s" == name or name + "s" == o):
            rv.add(o)
    return sorted(rv & names)


def mutations2(tree):
    """wrong variables, arguments in another order, missing elements"""
    nodes = list(ast.walk(tree))
    scope = {}
    for n in nodes:
        if isinstance(n, ast.FunctionDef):
            names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and
                     isinstance(x.ctx, ast.Store)}
            names |= {x.arg for x in ast.walk(n) if isinstance(x, ast.arg)}
            for x in ast.walk(n):
                scope[x] = names | scope.get(x, set())
    attrs = {x.attr for x in nodes if isinstance(x, ast.Attribute)}
    for i, n in enumerate(nodes):
        line = getattr(n, "lineno", 0)

        def m(what, f, i=i, line=line):
            return ("%d %s" % (line, what), i, f)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for o in sibling(n.id, scope.get(n, set())):
                def f(x, o=o):
                    x.id = o
                yield m("%s for %s" % (o, n.id), f)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for o in sibling(n.attr, attrs):
                def f(x, o=o):
                    x.attr = o
                yield m(".%s for .%s" % (o, n.attr), f)
        elif isinstance(n, ast.Call):
            for k in range(len(n.args) - 1):
                def f(x, k=k):
                    x.args[k:k + 2] = [x.args[k + 1], x.args[k]]
                yield m("swap arguments %d" % k, f)
            if len(n.args) > 1:
                def f(x):
                    x.args.pop()
                yield m("drop last argument", f)
        elif isinstance(n, (ast.Tuple, ast.List, ast.Set)) and \
                isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            for k in range(len(n.elts)):
                def f(x, k=k):
                    x.elts.pop(k)
                yield m("drop element %d" % k, f)
        elif isinstance(n, ast.Dict):
            for k in range(len(n.keys)):
                def f(x, k=k):
                    x.keys.pop(k)
                    x.values.pop(k)
                yield m("drop entry %d" % k, f)
        elif isinstance(n, ast.FunctionDef) and n.decorator_list:
            def f(x):
                x.decorator_list.pop()
            yield m("drop decorator", f)
        elif isinstance(n, ast.For):
            def f(x):
                x.iter = ast.Subscript(ast.Call(ast.Name(
                    "list", ast.Load()), [x.iter], []), ast.Slice(
                        ast.Constant(1), None, None), ast.Load())
            yield m("not the first", f)

            def f(x):
                x.iter = ast.Call(ast.Name("reversed", ast.Load()), [
                    ast.Call(ast.Name("list", ast.Load()), [x.iter], [])], [])
            yield m("reversed", f)

            def f(x):
                x.body = x.body + [ast.Break()]
            yield m("only the first", f)
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp,
                            ast.DictComp)):
            for k, g in enumerate(n.generators):
                for j in range(len(g.ifs)):
                    def f(x, k=k, j=j):
                        x.generators[k].ifs.pop(j)
                    yield m("drop condition", f)
        elif isinstance(n, ast.Try) and n.orelse:
            def f(x):
                x.body, x.orelse = x.body + x.orelse, []
            yield m("else inside try", f)
        elif isinstance(n, ast.If) and n.orelse:
            def f(x):
                x.orelse = []
            yield m("drop else", f)


if os.environ.get("MUT_OPS") == "2":
    mutations = mutations2


class Dropper(ast.NodeTransformer):
    def __init__(self, target):
        self.target = target

    def visit(self, node):
        if node is self.target:
            return ast.copy_location(ast.Pass(), node)
        return self.generic_visit(node)


def mutant(src, index):
    tree = ast.parse(src)
    what, i, f = list(mutations(tree))[index]
    node = list(ast.walk(tree))[i]
    if f:
        f(node)
    else:
        tree = Dropper(node).visit(tree)
    return what, ast.unparse(ast.fix_missing_locations(tree))


def with_mutant(path, index, fn):
    src = open(os.path.join(REPO, path)).read()
    what, text = mutant(src, index)
    tmp = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        repo = tmp + "/repo"
        shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns(
            ".git", "__pycache__"))
        open(os.path.join(repo, path), "w").write(text)
        return what, fn(repo)
    finally:
        shutil.rmtree(tmp)


import warnings
warnings.simplefilter("ignore")


def tests_pass(repo):
    import plant
    try:
        return not plant.stable_ok(repo)
    except Exception:
        return False


def main():
    cmd, path = sys.argv[1:3]
    if cmd == "list":
        src = open(os.path.join(REPO, path)).read()
        for k, (what, _, _) in enumerate(mutations(ast.parse(src))):
            print(k, what)
    elif cmd == "tests":
        src = open(os.path.join(REPO, path)).read()
        n = len(list(mutations(ast.parse(src))))
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(
                lambda k: with_mutant(path, k, tests_pass), range(n)))
        keep = [(k, w) for k, (w, ok) in enumerate(res) if ok]
        json.dump(dict(path=path, total=n, survive=keep),
                  open(sys.argv[3], "w"))
        print(path, n, "mutants,", len(keep), "pass the tests")
    else:
        d = json.load(open(path))
        pids = sys.argv[3].split(",")
        stride = int(sys.argv[4]) if len(sys.argv) > 4 else 1
        offset = int(sys.argv[5]) if len(sys.argv) > 5 else 0
        limit = int(os.environ.get("MUT_LIMIT", "200"))
        for k, w in d["survive"][offset::stride]:
            def checks(repo):
                for pid in pids:
                    try:
                        out = subprocess.run(
                            ["./check.py", pid], cwd="/verif", timeout=limit,
                            env=dict(os.environ, VERIF_REPO=repo, MC_FIRST="1",
                                     MC_NOEVIDENCE="1"),
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    except subprocess.TimeoutExpired:
                        return "TIMEOUT " + pid
                    if out.returncode == 1:
                        return "caught " + pid
                    if out.returncode:
                        return "error %s %s" % (pid, out.stdout.decode()[-300:])
                return "MISSED"
            what, r = with_mutant(d["path"], k, checks)
            print(d["path"], k, what, r, flush=True)


main()
