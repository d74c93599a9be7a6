#!/bin/bash
# try_bug.sh BUGDIR PROP...   (development tool, not a check)
# On a copy of /repo bound over /repo in a private mount namespace: demo without and with BUGDIR/patch.diff,
# the repository's tests with it, then the given checks (all: every check; TESTS=0 skips the tests).
bug=$(realpath "$1"); shift
if [ -z "$IN_NS" ]; then
  d=$(mktemp -d /tmp/trybug.XXXXXX)
  cp -a /repo/. "$d/"
  IN_NS=1 unshare -m bash -c "mount --bind $d /repo && exec $0 $bug $*"
  rc=$?
  rm -rf "$d"
  exit $rc
fi
cd /repo || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
id=$(basename "$bug")
bash "$bug/demo.sh" >/dev/null 2>&1; d0=$?
git apply "$bug/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
bash "$bug/demo.sh" >/tmp/demo.$id.out 2>&1; d1=$?
t=skipped
if [ "${TESTS:-1}" = 1 ]; then
  bash /opt/vp/test.sh /tmp/res.$id.json >/dev/null 2>&1
  t=$(/opt/venv/bin/python - /tmp/res.$id.json <<'PY'
import json, sys
base = json.load(open("/opt/vp/BASELINE.json"))
base = base if isinstance(base, list) else base.get("stable", base.get("passed", base))
got = set(json.load(open(sys.argv[1]))["passed"])
miss = [t for t in base if t not in got]
print("pass" if not miss else f"FAIL({len(miss)}: {miss[:2]})")
PY
)
fi
echo "$id: demo clean=$d0 patched=$d1 tests=$t"
[ "$1" = all ] && set -- $(cd /verif && ls pbt/props | grep -o 'p[0-9][0-9]' | sort -u | tr a-z A-Z)
for p in "$@"; do
  out=$(/verif/check.sh "$p" quick --no-evidence 2>&1); rc=$?
  echo "  $id $p rc=$rc $(echo "$out" | grep '^campaign' | cut -c1-160)"
done
