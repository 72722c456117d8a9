#!/bin/bash
# setup.sh: builds the instrumenter and one check binary once, so that a broken toolchain shows here.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d "${TMPDIR:-/tmp}/zzset.XXXXXX")"
trap 'case "$d" in */zzset.*) rm -rf "$d";; esac' EXIT
"$here/check.sh" build C15 "$d"
"$here/check.sh" build C20 "$d"
test -x "$d/C15" && test -x "$d/C20"
