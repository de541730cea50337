#!/bin/bash
# seedcheck.sh ID...: validates planted changes (build, stable tests, demo) on a scratch copy of /repo mounted over it in a private namespace
for id in "$@"; do S=/verif/seeded/$id; W=/tmp/seedw
  if [ "$IN_NS" != 1 ]; then
    mkdir -p $W; rsync -a --delete /repo/ $W/ 2>/dev/null || { rm -rf /tmp/seedw; cp -a /repo $W; }
    IN_NS=1 unshare -Urm bash -c "mount --bind $W /repo && exec $0 $id"; continue
  fi
  cd /repo && git checkout -q -- . ; rm -rf /tmp/seeddemo; cp -r $S /tmp/seeddemo; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json
  if [ -z "$SKIP_BASE" ]; then bash /tmp/seeddemo/demo.sh >/tmp/seed.$id.base 2>&1; b=$?; else b=skipped; fi
  git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1 || { echo "$id: does not build"; tail -5 /tmp/seed.$id.build; git checkout -q -- .; continue; }
  bash /tmp/seeddemo/demo.sh >/tmp/seed.$id.demo 2>&1; d=$?
  if [ -z "$SKIP_TESTS" ]; then bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.tests 2>&1; t=$(tail -1 /tmp/seed.$id.tests); else t=skipped; fi
  echo "$id: demo base=$b patched=$d ($(tail -1 /tmp/seed.$id.demo)) tests: $t"
  git checkout -q -- .
done
