#!/bin/bash
# seedtest.sh ID [full]   confirms a planted bug in a scratch copy (applies, builds, tests pass, demo tells the trees
# apart) unless it was confirmed before, then runs its property's check (or with "full" all checks) against it.
set -u
verif="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"; s="$verif/seeded/$id"
prop="$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")"
d="$(mktemp -d /tmp/zzseed.XXXXXX)"
trap 'case "$d" in /tmp/zzseed.*) rm -rf "$d";; esac' EXIT
cp -a /repo "$d/repo"
cd "$d/repo"
git apply --check "$s/patch.diff" || { echo "$id: patch does not apply"; exit 3; }
if [ "${CONFIRM:-1}" = 1 ]; then
  if [ "${CLEAN:-1}" = 1 ]; then bash "$s/demo.sh" >"$d/clean.out" 2>&1 || { echo "$id: demo fails on the clean tree"; tail -30 "$d/clean.out"; exit 3; }; fi
  git apply "$s/patch.diff"
  go build ./... >"$d/b.out" 2>&1 || { echo "$id: does not build"; tail "$d/b.out"; exit 3; }
  if bash "$s/demo.sh" >"$d/bug.out" 2>&1; then echo "$id: demo passes with the bug"; tail "$d/bug.out"; exit 3; fi
  if [ "${TESTS:-1}" = 1 ]; then
    sed "s,/repo\\b,$d/repo,g" /opt/vp/test.sh > "$d/test.sh"
    bash "$d/test.sh" "$d/t.json" >"$d/t.out" 2>&1
    python3 - "$d/t.json" <<'P' || { echo "$id: stable tests fail"; tail -5 "$d/t.out"; }
import json,sys
want=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open(sys.argv[1]))
ok=set(r.get('passed') or [k for k,v in r.get('tests',{}).items() if v=='pass'])
bad=[t for t in want if t not in ok]
if bad: print('not passed:',bad[:6]); sys.exit(1)
P
  fi
  echo "$id: confirmed: $(grep -m1 -E 'demo_test.go|DATA RACE|panic|fatal|FAIL' "$d/bug.out" | cut -c1-200)"
else
  git apply "$s/patch.diff"
fi
props="$prop"
[ "${2:-}" = full ] && props="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24"
[ "${2:-}" = none ] && props=""
rm -rf "$d/repo/.git"
for p in $props; do
  t0=$SECONDS
  VREPO="$d/repo" ZZREPLAYS="$d/rp" ZZEVID="$d" bash "$verif/mc/check.sh" $p quick >"$d/c.out" 2>&1
  rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" "$d/c.out"; then echo "$id: caught by $p ($((SECONDS-t0)) s): $(grep -m1 '^scenario' "$d/c.out" | cut -c1-220)"
  elif [ $rc = 0 ]; then [ "$p" = "$prop" ] && echo "$id: MISSED by $p ($((SECONDS-t0)) s)"
  else echo "$id: $p ended with $rc"; tail -5 "$d/c.out"; fi
done
