"""python3-vt tools/mutate.py MODULE... [--out LOG] [--jobs N] [--sample N] [--seed N]

Mutation campaign: every small syntactic change of a module (comparison, operator, constant, condition,
deleted or swapped statement, dropped lock, ...) that passes the repository's tests is run through the
checks of the module's properties.  The log lists, per mutant, CAUGHT by which property or SURVIVED.
Works on scratch copies only."""
import argparse
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings

warnings.simplefilter("ignore")

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PROPS = {"Event": "C01 C02 C03", "Selection": "C04 C05", "ListModel": "C06 C09 C10 C11 C36 C07 C08",
         "Geometry": "C12 C13 C14 C15 C34", "Converter": "C16 C17", "Binding": "C18 C19", "Validator": "C18",
         "Observable": "C20", "Model": "C20 C21 C22", "Stream": "C21 C22", "StructuredModel": "C23",
         "Persistence": "C24 C25 C26 C33", "Registry": "C27", "Process": "C28 C35", "ReferenceCounting": "C29 C21",
         "ThreadPool": "C30 C31", "Promise": "C32", "Recorder": "C33"}
SKIP_FUNCS = {"__str__", "__repr__", "__print_event_exception"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
NAMES = [("x", "y"), ("width", "height"), ("top", "bottom"), ("left", "right"), ("top", "left"), ("min", "max"),
         ("before_index", "after_index"), ("insert", "append"), ("floor", "ceil"), ("sin", "cos"), ("append", "remove"),
         ("any", "all"), ("key", "item"), ("value", "old_value"), ("begin", "end")]


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    data = src.encode()

    def pos(line, col):
        return offs[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    out = []

    def emit(n, new, kind):
        a, b = span(n)
        out.append((a, b, new, kind, n.lineno))

    def between(l, r, new, kind):
        a, b = span(l)[1], span(r)[0]
        old = data[a:b].decode()
        out.append((a, b, "%s %s %s" % (")" * old.count(")"), new, "(" * old.count("(")), kind, l.lineno))

    def walk(node, skip, method=False):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            method = bool(node.args.args) and node.args.args[0].arg == "self" and node.name != "__init__"
            if node.name in SKIP_FUNCS:
                return
            for d in node.args.defaults + node.args.kw_defaults:
                if isinstance(d, ast.Constant) and isinstance(d.value, (bool, int, float)):
                    emit(d, repr(not d.value) if isinstance(d.value, bool) else repr(d.value + 1), "default")
        if isinstance(node, ast.AnnAssign):
            if node.value:
                walk(node.value, skip)
            return
        if isinstance(node, ast.arg) or isinstance(node, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for new in CMP[type(node.ops[0])]:
                between(node.left, node.comparators[0], new, "cmp")
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            none = isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None
            op = type(node.ops[0])
            if none and op in (ast.Is, ast.IsNot):
                emit(node, "(%s(%s))" % ("" if op is ast.IsNot else "not ", text(node.left)), "truthy")
            elif op in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot):
                between(node.left, node.comparators[0], {ast.Eq: "is", ast.NotEq: "is not", ast.Is: "==", ast.IsNot: "!="}[op], "eqis")
        if isinstance(node, (ast.If, ast.IfExp)) and isinstance(node.test, (ast.Name, ast.Attribute)):
            emit(node.test, "(%s is not None)" % text(node.test), "truthy")
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("min", "max"):
            emit(node.func, "max" if node.func.id == "min" else "min", "minmax")
        if isinstance(node, ast.For):
            ind = " " * node.body[0].col_offset
            a, b = span(node)
            if node.body[0].lineno > node.lineno and not node.orelse:
                out.append((b, b, "\n" + ind + "break", "once", node.lineno))
        if isinstance(node, ast.BoolOp):
            new = "or" if isinstance(node.op, ast.And) else "and"
            for l, r in zip(node.values, node.values[1:]):
                between(l, r, new, "bool")
            for v in node.values:
                rest = [x for x in node.values if x is not v]
                emit(node, "(" + (" and " if new == "or" else " or ").join("(" + text(x) + ")" for x in rest) + ")", "dropcond")
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            emit(node, "(" + text(node.operand) + ")", "not")
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            emit(node, "(" + text(node.operand) + ")", "neg")
        if isinstance(node, ast.BinOp):
            new = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"]}.get(type(node.op), [])
            if isinstance(node.op, ast.Add) and isinstance(node.right, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(node.right, "value", None), str):
                new = []
            for n in new:
                between(node.left, node.right, n, "binop")
        if isinstance(node, ast.AugAssign):
            a, b = span(node.target)[1], span(node.value)[0]
            op = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/="}.get(type(node.op))
            if op:
                out.append((a, b, " %s " % op, "aug", node.lineno))
        if isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                emit(node, repr(not node.value), "const")
            elif isinstance(node.value, (int, float)):
                emit(node, repr(node.value + 1), "const")
                if node.value == 1:
                    emit(node, "0", "const")
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            emit(node.test, "True", "cond")
            if not isinstance(node, ast.While):
                emit(node.test, "False", "cond")
            if isinstance(node, ast.IfExp):
                pass
        if isinstance(node, ast.comprehension):
            for i in node.ifs:
                emit(i, "True", "compif")
        if isinstance(node, (ast.Break, ast.Continue)):
            emit(node, "pass", "break")
        if isinstance(node, ast.Call):
            if len(node.args) == 2 and not any(isinstance(x, ast.Starred) for x in node.args):
                a, b = span(node.args[0])[0], span(node.args[1])[1]
                out.append((a, b, text(node.args[1]) + ", " + text(node.args[0]), "swapargs", node.lineno))
            for f in ("copy.copy", "copy.deepcopy", "list", "set", "dict", "tuple", "sorted", "reversed"):
                if text(node.func) == f and len(node.args) == 1:
                    emit(node, text(node.args[0]), "nocopy")
        if isinstance(node, (ast.Attribute, ast.Name)) and isinstance(node.ctx, ast.Load):
            nm = node.attr if isinstance(node, ast.Attribute) else node.id
            for p, q in NAMES:
                for u, w in ((p, q), (q, p)):
                    if nm == u:
                        b = span(node)[1]
                        out.append((b - len(u), b, w, "name", node.lineno))
        for field in ("body", "orelse", "finalbody"):
            blk = getattr(node, field, None)
            if not isinstance(blk, list):
                continue
            infunc = not isinstance(node, (ast.Module, ast.ClassDef))
            if infunc:
                for s in blk:
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert, ast.AnnAssign)):
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                            continue
                        emit(s, "pass", "delete")
                        if method and not isinstance(s, (ast.Assert, ast.Raise)) and node.__class__ is not ast.ClassDef:
                            ind = " " * s.col_offset
                            n = "_zz%d" % s.lineno
                            emit(s, "self.__dict__['%s'] = self.__dict__.get('%s', 0) + 1\n%sif self.__dict__['%s'] != 3:\n%s    %s"
                                 % (n, n, ind, n, ind, text(s).replace("\n", "\n    ")), "skip3")
                    if isinstance(s, ast.Return) and s.value is not None and len(text(s.value)) and text(s.value) != "None":
                        emit(s, "return None", "return")
                    if isinstance(s, (ast.For, ast.If, ast.While, ast.Try)):
                        emit(s, "pass", "delete")
                    if isinstance(s, ast.With):
                        a, b = span(s)
                        body = "\n".join(data[a:b].decode().splitlines()[1:])
                        ind = " " * s.col_offset
                        out.append((a, b, "if True:\n" + body, "nowith", s.lineno))
                simple = (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.If, ast.For, ast.With)
                for s, t in zip(blk, blk[1:]):
                    if isinstance(s, simple) and isinstance(t, simple):
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                            continue
                        if isinstance(s, ast.Assign) and isinstance(t, ast.Assign) and not any(
                                text(x) in text(t.value) for x in s.targets) and not any(text(x) in text(s.value) for x in t.targets):
                            continue
                        a, b = span(s)[0], span(t)[1]
                        ind = " " * s.col_offset
                        out.append((a, b, text(t) + "\n" + ind + text(s), "swap", s.lineno))
        for c in ast.iter_child_nodes(node):
            walk(c, skip, method)

    walk(tree, False)
    res, seen = [], set()
    for a, b, new, kind, line in out:
        m = data[:a] + new.encode() + data[b:]
        if m in seen or m == data:
            continue
        seen.add(m)
        try:
            if ast.dump(ast.parse(m)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append({"kind": kind, "line": line, "old": data[a:b].decode(), "new": new, "src": m.decode()})
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("modules", nargs="+")
    ap.add_argument("--out", default="/tmp/mutants.jsonl")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--sample", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--lines")
    ap.add_argument("--kinds")
    ap.add_argument("--budget", default="150")
    a = ap.parse_args()
    todo = []
    for mod in a.modules:
        ms = mutants(open("/repo/nion/utils/%s.py" % mod).read())
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            ms = [m for m in ms if lo <= m["line"] <= hi]
        if a.kinds:
            ms = [m for m in ms if m["kind"] in a.kinds.split(",")]
        if a.sample and len(ms) > a.sample:
            ms = random.Random(a.seed).sample(ms, a.sample)
        todo += [(mod, m) for m in ms]
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["module"], d["line"], d["old"], d["new"], d["kind"]))
    todo = [(mod, m) for mod, m in todo if (mod, m["line"], m["old"], m["new"], m["kind"]) not in done]
    print(len(todo), "mutants")
    lock = threading.Lock()
    local = threading.local()
    copies = []
    out = open(a.out, "a")

    def work(mod, m):
        if not hasattr(local, "dir"):
            local.dir = tempfile.mkdtemp(prefix="mutc_")
            shutil.copytree("/repo", local.dir + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
            with lock:
                copies.append(local.dir)
        repo = local.dir + "/repo"
        f = repo + "/nion/utils/%s.py" % mod
        orig = open("/repo/nion/utils/%s.py" % mod).read()
        open(f, "w").write(m["src"])
        verdict, detail = "SURVIVED", ""
        try:
            env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", PYTHONHASHSEED="0")
            try:
                t = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "--timeout=10", "nion"],
                                   cwd=repo, capture_output=True, text=True, env=dict(env, PYTEST_DISABLE_PLUGIN_AUTOLOAD="1"), timeout=90)
                bad = t.returncode != 0
            except subprocess.TimeoutExpired:
                bad = True
            if bad:
                verdict = "TESTS"
            else:
                for prop in PROPS[mod].split():
                    if not any(l.startswith("@check(\"%s\"" % prop) or '"%s"' % prop in l
                               for h in os.listdir(V + "/harness") if h.endswith(".py") for l in open(V + "/harness/" + h)):
                        continue
                    try:
                        c = subprocess.run(["python3-vt", "engine/run.py", prop, "--jobs", "1", "--budget", a.budget], cwd=V, capture_output=True, text=True,
                                           env=dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=local.dir + "/ev"), timeout=1500)
                        rc, so = c.returncode, c.stdout
                    except subprocess.TimeoutExpired:
                        rc, so = 124, ""
                    if rc == 1:
                        verdict = "CAUGHT"
                        detail = prop + " " + (so.strip().splitlines()[-2] if len(so.strip().splitlines()) > 1 else "")[:160]
                        break
                    if rc != 0:
                        detail += "[%s exit %s %s]" % (prop, rc, so[-200:])
                    elif "WARNING" in so or "NOT exhausted" in so:
                        detail += "[%s %s]" % (prop, so[-400:])
        finally:
            open(f, "w").write(orig)
        with lock:
            out.write(json.dumps({"module": mod, "line": m["line"], "kind": m["kind"], "old": m["old"], "new": m["new"],
                                  "verdict": verdict, "detail": detail}) + "\n")
            out.flush()

    try:
        with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
            for f in [ex.submit(work, mod, m) for mod, m in todo]:
                f.result()
    finally:
        for d in copies:
            shutil.rmtree(d, ignore_errors=True)


main()
