#!/bin/bash
# plant.sh ID...: confirms each planted bug (applies, builds, stable tests pass, demo 0 before and nonzero after)
# and says whether its property's check catches it. For use by hand; no check reads seeded/.
here=/verif/seeded
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 1; }
for id in "$@"; do
  d=$here/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(mktemp -d /tmp/demo.XXXX); cp -a $d/. $s; rm -f $s/*.diff $s/*.patch $s/meta.json
  cd /repo
  bash $s/demo.sh >$s/out0 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >$s/build 2>&1; b=$?
  bash /opt/vp/test.sh $s/t.json >/dev/null 2>&1
  t=$(python3 - $s/t.json <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
d=json.load(open(sys.argv[1]))
def names(x):
    return set(x) if isinstance(x,list) else set(k for k,v in x.items())
p=d.get('passed') or d.get('pass') or d
print("ok" if set(base)<=names(p) else "FAILTESTS")
P
)
  bash $s/demo.sh >$s/out1 2>&1; c=$?
  r="(not run)"
  if [ -z "$NOCHECK" ]; then (cd /verif && timeout 900 ./check.sh $prop >$s/chk 2>&1); r="check=$? $(grep -m1 -c VIOLATION $s/chk)"; fi
  git checkout -q -- .
  echo "$id [$prop] demo0=$a build=$b tests=$t demo1=$c $r"
  [ $a = 0 ] || tail -5 $s/out0
  [ $b = 0 ] || tail -5 $s/build
  [ -n "$V" ] && { tail -5 $s/out1; grep -v '^$' $s/chk | tail -${V}; }
  rm -rf "$s"
done
