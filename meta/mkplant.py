"""mk(id, property, edits, demo, needs, breaks): writes seeded/<id>/. edits: [(path, old, new)]; demo: Go main program text."""
import json, os, subprocess
RUN = '''#!/bin/bash
# Builds main.go into the repository's module through an overlay and runs it.
here=$(cd "$(dirname "$0")" && pwd); root=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false; unset GOWORK
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/go/%(dir)s/%(name)s":"%%s/main.go"}}' "$root" "$here" > "$tmp/ov.json"
cd "$root/go" || exit 2
%(cmd)s
'''
def mk(id, prop, edits, demo, needs, breaks, dir="zzdemo", test=None):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout
    for path, old, new in edits:
        p = "/repo/" + path
        s = open(p).read()
        assert s.count(old) == 1, (id, path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    cmd = 'go build -overlay "$tmp/ov.json" -o "$tmp/demo" ./%s || exit 2\ncd "$tmp" && timeout 120 ./demo' % dir
    name = "main.go"
    if test:
        name = "zz_demo_test.go"
        cmd = 'timeout 250 go test -vet=off -count=1 -overlay "$tmp/ov.json" -run \'%s\' ./%s' % (test, dir)
    open(d + "/demo.sh", "w").write(RUN % dict(dir=dir, name=name, cmd=cmd))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.go", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
