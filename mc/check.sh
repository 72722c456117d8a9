#!/bin/bash
# check.sh PROP TIER         decide one property on /repo's working tree (exit 0 held, 1 VIOLATION, 2 error)
# check.sh replay FILE       run the execution of a replay file again, with its trace
# check.sh run PROP [SCN]    run one property's scenarios in one process and print what they cover
# check.sh build PROP DIR    leave the check binary in DIR
set -u
here="$(cd "$(dirname "$0")" && pwd)"
verif="$(dirname "$here")"
repo="${VREPO:-/repo}"
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off
unset GOEXPERIMENT GODEBUG GOMAXPROCS
cmd=check
case "${1:-}" in
replay|run|list|build) cmd="$1"; shift;;
esac
file=""
if [ "$cmd" = replay ]; then
  file="$1"
  prop="$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$file" | head -1)"
  tier="$(sed -n 's/.*"tier": *"\([^"]*\)".*/\1/p' "$file" | head -1)"
  file="$(cd "$(dirname "$file")" && pwd)/$(basename "$file")"
else
  prop="$1"; shift
  if [ "$cmd" = check ]; then tier="${1:-quick}"; else tier="${TIER:-quick}"; fi
fi
scratch="$(mktemp -d "${TMPDIR:-/tmp}/zzmc.XXXXXX")" || exit 2
cleanup() { case "$scratch" in */zzmc.*) rm -rf "$scratch";; esac; }
trap cleanup EXIT
trap 'exit 2' INT TERM
mkdir -p "$scratch/run"
export TMPDIR="$scratch/run"
(cd "$here/instr" && go build -o "$scratch/instr" .) || { echo "cannot build the instrumenter"; exit 2; }
lower="$(echo "$prop" | tr A-Z a-z)"
ok=""
for level in ${ZZLEVEL:-3 2 1}; do
  m="$scratch/mod"
  rm -rf "$scratch/mod"
  mkdir -p "$m/zzharness"
  mod="$("$scratch/instr" -src "$repo" -dst "$m" -rt "$here/rt" -level $level 2>"$scratch/instr.err" | tail -1)"
  if [ -z "$mod" ]; then cat "$scratch/instr.err"; continue; fi
  cp "$here"/harness/core*.go "$here/harness/$lower.go" "$m/zzharness/"
  for f in $(sed -n 's,^// uses: ,,p' "$here/harness/$lower.go"); do cp "$here/harness/$f" "$m/zzharness/"; done
  sed -i "s,github.com/sira-serverless-ir-arch/goirlib,$mod,g" "$m"/zzharness/*.go
  if grep -q '^// needs: main' "$here/harness/$lower.go"; then
    printf 'package main\n\nimport zzharness "%s/zzharness"\n\nfunc main() { zzharness.Main(ZZMain) }\n' "$mod" > "$m/zz_main.go"
    target=.
  else
    mkdir -p "$m/zzcheck"
    printf 'package main\n\nimport zzharness "%s/zzharness"\n\nfunc main() { zzharness.Main(nil) }\n' "$mod" > "$m/zzcheck/main.go"
    target=./zzcheck
  fi
  if (cd "$m" && go build -o "$scratch/bin" $target) 2>"$scratch/build.err"; then ok=1; break; fi
  echo "instrumented build at level $level failed:"; head -20 "$scratch/build.err"
done
[ -n "$ok" ] || { echo "no instrumented build of $repo possible"; exit 2; }
kn="$(sed -n "s,^known: property=$prop key=\([^ ]*\).*,\1,p" "$verif/known-findings.txt" 2>/dev/null | paste -sd, -)"
cd "$scratch/run"
case "$cmd" in
build) mkdir -p "$1" && cp "$scratch/bin" "$1/$prop"; exit 0;;
replay) "$scratch/bin" replay -tier "$tier" -known "$kn" "$file"; exit $?;;
run|list) "$scratch/bin" $cmd -tier "$tier" -known "$kn" -v "${V:-}" -limit "${LIMIT:-600}" "$@"; exit $?;;
esac
if [ "$tier" = thorough ]; then limit="${ZZLIMIT:-780}"; else limit="${ZZLIMIT:-420}"; fi
"$scratch/bin" check -tier "$tier" -seed "${VERIF_SEED:-1}" -known "$kn" -limit "$limit" -level $level -jobs "${ZZJOBS:-8}" \
  -evidence "${ZZEVID:-$verif/evidence}/$prop.json" -replays "${ZZREPLAYS:-$verif/evidence/replays}"
exit $?
