"""Runs each history in a process of its own that has made no call before.

`python -m mc.fresh MODULE` imports MODULE and then, for each line (a JSON value) it is
given, answers with the JSON of MODULE.fresh(value), called in a copy of itself."""
import atexit
import gc
import importlib
import json
import os
import subprocess
import sys

_procs: dict = {}


def ask(module: str, value):
    key = (module, os.getpid())
    p = _procs.get(key)
    if p is None:
        p = _procs[key] = subprocess.Popen(
            [sys.executable, "-m", "mc.fresh", module],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        atexit.register(p.kill)
    p.stdin.write(json.dumps(value) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("the process for histories ended")
    return json.loads(line)


def main(module):
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    m = importlib.import_module(module)
    m.warm()
    gc.collect()
    gc.freeze()
    for line in sys.stdin:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    res = m.fresh(json.loads(line))
                except BaseException as e:  # noqa: BLE001
                    res = {"raised": f"{type(e).__name__}: {e}"}
                with os.fdopen(w, "w") as f:
                    json.dump(res, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.write((data or '{"raised": "died"}') + "\n")
        out.flush()


if __name__ == "__main__":
    main(sys.argv[1])
