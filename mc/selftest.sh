#!/bin/bash
# selftest.sh: the in-memory file system of the runtime against the real one (harness/c00.go); about 75 s.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d "${TMPDIR:-/tmp}/zzself.XXXXXX")"
trap 'case "$d" in */zzself.*) rm -rf "$d";; esac' EXIT
ZZEVID="$d" ZZREPLAYS="$d" bash "$here/check.sh" C00 "${1:-quick}"
