"""mkseed: seed(id, prop, edits, test, needs, breaks) writes /verif/seeded/<id>/ from text edits of /repo's HEAD."""
import json, os, subprocess, tempfile, shutil
OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
# Runs demo_test.go inside the module, through an overlay; everything it writes is in a scratch folder.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$d/overlay.json"
export TMPDIR="$d"
go test -vet=off -overlay "$d/overlay.json" %(flags)s-c -o "$d/demo.test" ./%(pkg)s || exit 2
cd "$d" && ./demo.test -test.run TestZZDemo -test.timeout 240s
'''
def seed(id, prop, edits, test, needs, breaks, pkg="zzdemo", flags="", demo=None):
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="zzmk.", dir="/tmp")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/r", "HEAD"], stderr=subprocess.DEVNULL)
        for f, old, new in edits:
            p = os.path.join(t, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        subprocess.call(["gofmt", "-l"] + [os.path.join(t, "r", e[0]) for e in edits])
        diff = subprocess.check_output(["git", "-C", t + "/r", "diff"]).decode()
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/r"])
        shutil.rmtree(t)
    if test is not None: open(os.path.join(d, "demo_test.go"), "w").write(test)
    open(os.path.join(d, "demo.sh"), "w").write(demo or DEMO % dict(pkg=pkg, flags=flags + " " if flags else ""))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
