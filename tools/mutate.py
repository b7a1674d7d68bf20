"""Mass mutation of the library, to find what no check sees (a development aid; no check uses it).

  mutate.py gen OUT.json                 list every mutant of the sources
  mutate.py test IN.json OUT.json [N]    keep the mutants that pass the test suite (N copies in parallel)
  mutate.py check IN.json OUT.json [N]   run the checks on those until one reports a violation
"""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FILES = [f"src/connectrpc/{f}" for f in """_asyncio_timeout.py _client_async.py _client_shared.py _client_sync.py _codec.py _compression.py _envelope.py
 _headers.py _interceptor_async.py _interceptor_sync.py _protocol.py _protocol_connect.py _protocol_grpc.py _protocol_server.py _response_metadata.py
 _server_async.py _server_shared.py _server_sync.py code.py errors.py method.py request.py compression/brotli.py compression/gzip.py compression/zstd.py
 compression/__init__.py compat/_codec.py""".split()]
FILES += ["connectrpc-otel/connectrpc_otel/_interceptor.py", "connectrpc-otel/connectrpc_otel/_instrumentor.py", "protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py"]

CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.data = src.encode()
        self.starts = [0]
        for line in self.data.splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(line))
        self.out = []
        self.stack = []

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.data[a:b].decode()

    def put(self, n, new, op):
        a, b = self.span(n)
        if self.data[a:b].decode() != new:
            self.out.append((a, b, new, op, n.lineno))

    def generic_visit(self, node):
        self.stack.append(node)
        super().generic_visit(node)
        self.stack.pop()

    def visit_If(self, n):
        if isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            for x in n.orelse:
                self.visit(x)
            return
        self.cond(n.test)
        self.generic_visit(n)

    def cond(self, t):
        if not isinstance(t, (ast.Compare, ast.BoolOp)) and not (isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)):
            self.put(t, f"(not ({self.text(t)}))", "negate")

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, f"({self.text(n.body)})", "ifexp-body")
        self.put(n, f"({self.text(n.orelse)})", "ifexp-else")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            self.put(n, f"({self.text(n.left)} {CMP[type(n.ops[0])]} {self.text(n.comparators[0])})", "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        new = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, "(" + new.join(f"({self.text(v)})" for v in n.values) + ")", "boolop")
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            old = " and " if isinstance(n.op, ast.And) else " or "
            self.put(n, "(" + old.join(f"({self.text(v)})" for v in rest) + ")", "boolop-drop")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, self.text(n.operand), "not")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "+"}.get(type(n.op))
        if sw and not any(isinstance(x, (ast.JoinedStr,)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
            self.put(n, f"({self.text(n.left)} {sw} {self.text(n.right)})", "arith")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.put(n, repr(not n.value), "bool")
        elif isinstance(n.value, int):
            self.put(n, str(n.value + 1), "int+1")
            if n.value > 0:
                self.put(n, str(n.value - 1), "int-1")
        elif isinstance(n.value, str) and n.value and re.fullmatch(r"[\w./+:-]+", n.value):
            self.put(n, repr(n.value + "x"), "str")
        elif isinstance(n.value, bytes) and n.value:
            self.put(n, repr(n.value + b"x"), "bytes")

    def visit_JoinedStr(self, n):
        pass

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_arguments(self, n):
        for d in n.defaults + [x for x in n.kw_defaults if x]:
            self.visit(d)

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__", "__str__"):
            return
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        self.visit(n.args)
        self.stack.append(n)
        for x in body:
            self.visit(x)
        self.stack.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        for x in n.body:
            if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                self.visit(x)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if self.stack:
            self.put(n, "pass", "drop-stmt")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.put(n, "pass", "drop-stmt")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if self.stack and not all(isinstance(t, ast.Name) for t in n.targets):
            self.put(n, "pass", "drop-stmt")
        elif self.stack and isinstance(n.value, ast.Call) and not isinstance(n.value.func, ast.Attribute) and False:
            pass
        self.generic_visit(n)

    def visit_Delete(self, n):
        self.put(n, "pass", "drop-stmt")

    def visit_Raise(self, n):
        if n.exc is not None:
            self.put(n, "pass", "drop-raise")
            if isinstance(n.exc, ast.Call) and n.exc.args:
                self.visit(n.exc.args[0])
        else:
            self.put(n, "pass", "drop-raise")

    def visit_Continue(self, n):
        self.put(n, "pass", "drop-stmt")

    def visit_Break(self, n):
        self.put(n, "pass", "drop-stmt")

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            if any(isinstance(s, ast.If) for s in self.stack):
                self.put(n, "pass", "drop-return")
        else:
            self.put(n, "pass", "drop-return")
        self.generic_visit(n)

    def visit_Attribute(self, n):
        # Code.X -> another code
        if isinstance(n.value, ast.Name) and n.value.id == "Code":
            self.put(n, "Code.DATA_LOSS" if n.attr != "DATA_LOSS" else "Code.ABORTED", "code")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("lower", "strip", "rstrip", "lstrip", "copy", "casefold", "removeprefix", "removesuffix"):
            self.put(n, self.text(f.value), "strip-call")
        if isinstance(f, ast.Name) and f.id in ("tuple", "list", "reversed", "dict", "iter", "Headers", "sorted", "set", "frozenset") and len(n.args) == 1 and not n.keywords:
            self.put(n, f"({self.text(n.args[0])})", "unwrap-call")
        for k in n.keywords:
            if k.arg:
                rest = [self.text(a) for a in n.args] + [f"{x.arg}={self.text(x.value)}" if x.arg else f"**{self.text(x.value)}" for x in n.keywords if x is not k]
                self.put(n, f"{self.text(f)}({', '.join(rest)})", f"drop-kw {k.arg}")
        if isinstance(f, ast.Attribute) and f.attr == "get" and len(n.args) == 2:
            self.put(n, f"{self.text(f)}({self.text(n.args[0])})", "drop-default")
        if isinstance(f, ast.Name) and f.id in ("min", "max") and len(n.args) == 2:
            self.put(n, f"{'max' if f.id == 'min' else 'min'}({', '.join(self.text(a) for a in n.args)})", "minmax")
        self.generic_visit(n)

    def visit_Try(self, n):
        for h in n.handlers:
            if h.type is not None and isinstance(h.type, ast.Tuple):
                for i in range(len(h.type.elts)):
                    rest = [self.text(x) for j, x in enumerate(h.type.elts) if j != i]
                    self.put(h.type, "(" + ", ".join(rest) + ",)", "except-drop")
            elif h.type is not None:
                self.put(h.type, "ZeroDivisionError", "except-never")
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for c in n.ifs:
            self.put(c, "True", "comp-if")
        self.generic_visit(n)

    def visit_Starred(self, n):
        self.generic_visit(n)


def gen(out):
    muts = []
    for f in FILES:
        src = open(f"{REPO}/{f}").read()
        g = Gen(src)
        g.visit(ast.parse(src))
        seen = set()
        for a, b, new, op, line in g.out:
            data = src.encode()
            m = (data[:a] + new.encode() + data[b:]).decode()
            if m in seen:
                continue
            seen.add(m)
            try:
                compile(m, f, "exec")
            except SyntaxError:
                continue
            muts.append({"id": len(muts), "file": f, "line": line, "op": op, "a": a, "b": b, "old": data[a:b].decode(), "new": new})
    json.dump(muts, open(out, "w"), indent=0)
    print(len(muts), "mutants")


def slots(n):
    q = Queue()
    for i in range(n):
        d = f"/tmp/mut/slot{i}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["cp", "-a", REPO, f"{d}/repo"], check=True)
        subprocess.run(f"mkdir {d}/verif && cp -a {VERIF}/mc {VERIF}/checks {VERIF}/KNOWN_FINDINGS.json {d}/verif/", shell=True, check=True)
        q.put(d)
    return q


def apply(d, m):
    path = f"{d}/repo/{m['file']}"
    data = open(f"{REPO}/{m['file']}", "rb").read()
    assert data[m["a"]:m["b"]].decode() == m["old"]
    open(path, "wb").write(data[:m["a"]] + m["new"].encode() + data[m["b"]:])


def restore(d, m):
    shutil.copy(f"{REPO}/{m['file']}", f"{d}/repo/{m['file']}")


def env(d, **kw):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             PYTHONPATH=f"{d}/verif:{d}/repo/src:{d}/repo/connectrpc-otel:{d}/repo/protoc-gen-connectrpc", **kw)
    e.pop("OTEL_SDK_DISABLED", None)
    return e


def run_tests(d):
    for sub in ("repo", "repo/connectrpc-otel"):
        try:
            r = subprocess.run(["timeout", "-k", "1", "45", "/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=8"], cwd=f"{d}/{sub}",
                               env=env(d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except Exception:
            return False
        if r.returncode != 0:
            return False
    return True


def test(inp, out, n):
    muts = json.load(open(inp))
    q = slots(n)
    t0 = time.time()
    done = [0]
    alive = []

    def one(m):
        d = q.get()
        try:
            apply(d, m)
            ok = run_tests(d)
        finally:
            restore(d, m)
            q.put(d)
        done[0] += 1
        if ok:
            alive.append(m)
        if done[0] % 50 == 0:
            print(done[0], "of", len(muts), "alive", len(alive), round(time.time() - t0), "s", flush=True)
            json.dump(sorted(alive, key=lambda m: m["id"]), open(out, "w"), indent=0)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, muts))
    json.dump(sorted(alive, key=lambda m: m["id"]), open(out, "w"), indent=0)
    print("alive", len(alive))


ALL = [f"C{i:02d}" for i in range(1, 28)]
FIRST = {
    "_asyncio_timeout": "C06", "_client_async": "C15 C06 C27 C19 C04 C08 C14 C25 C24 C17 C12", "_client_sync": "C15 C06 C27 C19 C04 C08 C14 C25 C24 C17 C12", "_client_shared": "C14 C19",
    "_codec": "C15", "_compression": "C07", "_envelope": "C01 C02 C08 C07", "_headers": "C16 C04", "_interceptor_async": "C12 C11", "_interceptor_sync": "C12 C10",
    "_protocol.py": "C03 C19 C25 C13", "_protocol_connect": "C02 C19 C03 C04 C07 C05 C13 C14", "_protocol_grpc": "C02 C19 C03 C04 C05 C07 C13", "_protocol_server": "C13",
    "_response_metadata": "C17 C04", "_server_async": "C09 C13 C14 C08 C11 C18 C27 C04 C24", "_server_sync": "C10 C13 C14 C08 C23 C27 C04 C24", "_server_shared": "C13 C15", "code": "C03 C19",
    "errors": "C03", "method": "C13", "request": "C05 C04", "compression/": "C07", "compat": "C15", "otel/connectrpc_otel/_interceptor": "C21", "_instrumentor": "C26 C21", "protoc-gen": "C20",
}


def order(f):
    first = next((v.split() for k, v in sorted(FIRST.items(), key=lambda kv: -len(kv[0])) if k in f), [])
    if "protoc-gen" in f:
        return ["C20"]
    if "otel" in f:
        return first + [c for c in ("C21", "C26") if c not in first]
    return first + [c for c in ALL if c not in first and c not in ("C20", "C26")]


def check(inp, out, n):
    muts = json.load(open(inp))
    q = slots(n)
    t0 = time.time()
    res = json.load(open(out)) if os.path.exists(out) else []
    have = {m["id"] for m in res}
    todo = [m for m in muts if m["id"] not in have]
    budget = os.environ.get("BUDGET", "25")

    def one(m):
        d = q.get()
        m = dict(m, by=None, odd=[])
        try:
            apply(d, m)
            for c in order(m["file"]):
                r = subprocess.run(["timeout", "-k", "5", "300", "/opt/venv/bin/python", "-m", "mc.run", c, "--budget", budget, "--jobs", os.environ.get("JOBS", "2")], cwd=f"{d}/verif",
                                   env=env(d, VERIF_EXEC_TIMEOUT="8"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    m["by"] = c
                    break
                if r.returncode != 0:
                    m["odd"].append((c, r.returncode, r.stdout[-300:]))
        finally:
            restore(d, m)
            q.put(d)
        res.append(m)
        print(len(res), "of", len(muts), round(time.time() - t0), "s", m["by"] or "SURVIVES", m["file"], m["line"], m["op"], repr(m["old"][:60]), "->", repr(m["new"][:60]), flush=True)
        json.dump(sorted(res, key=lambda m: m["id"]), open(out, "w"), indent=0)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, todo))


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2])
    else:
        {"test": test, "check": check}[sys.argv[1]](sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 4)
