#!/bin/bash
# tools/seedcheck.sh [-q] ID...: a planted bug must pass the tests and fail its demo; does its check see it?
# Works in a copy of /repo, which it removes.  -q: skip tests and demo.  CHECKS="C01 C02": run these checks instead.
q=0; [ "$1" = -q ] && { q=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/seedcheck.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; mkdir "$W/verif"; cp -a $V/mc $V/checks $V/KNOWN_FINDINGS.json "$W/verif/"
R=$W/repo
export PYTHONDONTWRITEBYTECODE=1
run() { PYTHONPATH="$W/verif:$R/src:$R/connectrpc-otel:$R/protoc-gen-connectrpc" "$@"; }
for id in "$@"; do
  d=$V/seeded/$id
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  r="$id $prop:"
  if [ $q = 0 ]; then
    (cd $R && bash $d/demo.sh >/tmp/seed.demo0.$id 2>&1) && r="$r demo0=ok" || r="$r demo0=FAILS"
  fi
  git -C $R apply $d/patch.diff || { echo "$r does not apply"; continue; }
  if [ $q = 0 ]; then
    (cd $R && bash $d/demo.sh >/tmp/seed.demo1.$id 2>&1) && r="$r DEMO-PASSES" || r="$r demo1=fails"
    for s in . connectrpc-otel; do
      (cd $R/$s && run timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider >/tmp/seed.test.$id 2>&1) || r="$r TESTS-FAIL($s: $(tail -1 /tmp/seed.test.$id))"
    done
  fi
  for c in ${CHECKS:-$prop}; do
    s=$(date +%s)
    (cd $W/verif && run timeout 900 /opt/venv/bin/python -m mc.run $c ${TIER:+--tier $TIER} >/tmp/seed.check.$id.$c 2>&1); rc=$?
    v=$(grep -c "^VIOLATION property=$c" /tmp/seed.check.$id.$c)
    if [ $rc = 1 ] && [ $v -gt 0 ]; then r="$r $c=CAUGHT($v)"; else r="$r $c=MISSED(rc=$rc)"; fi
    r="$r $(( $(date +%s) - s ))s"
  done
  git -C $R checkout -q -- .
  echo "$r"
done
