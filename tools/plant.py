"""tools/plant.py SPEC.py...: makes seeded/<id>/ from a spec (ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO).

EDITS is a list of (file, old text, new text); DEMO is a Python program using demolib."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = f"{V}/seeded/{s['ID']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = "/tmp/plantwork"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", w], check=True)
    for f, old, new in s["EDITS"]:
        p = f"{w}/{f}"
        t = open(p).read()
        assert t.count(old) == 1, f"{spec}: {f}: {t.count(old)} times: {old!r}"
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(f"{d}/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
              open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.py", "w").write(s["DEMO"].lstrip("\n"))
    shutil.copy(f"{V}/tools/demolib.py", f"{d}/demolib.py")
    open(f"{d}/demo.sh", "w").write('''#!/bin/bash
# run with cwd /repo after the build
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD/src:$PWD/connectrpc-otel:$PWD/protoc-gen-connectrpc:$d"
exec timeout 250 /opt/venv/bin/python "$d/demo.py"
''')
    os.chmod(f"{d}/demo.sh", 0o755)
    print("planted", s["ID"])
