#!/bin/bash
# bug.sh verify ID  : patch applies, builds, passes the tests; demo passes without and fails with it (scratch copy)
# bug.sh checks ID P.. : run quick checks against the patched tree
V=/verif; id=$2; S=$V/seeded/$id; D=/tmp/bug.$$
case $1 in
verify)
  rm -rf "$D"; mkdir -p "$D/s"; cp -a /repo "$D/repo"; cp $S/demo.sh "$D/s/"; for f in $S/*; do case $f in *.diff|*.patch|*meta.json) ;; *) cp -r $f "$D/s/";; esac; done
  # the build and test scripts work on /repo: use a mount-free copy by patching /repo itself and undoing it
  cd /repo || exit 2; [ -z "$(git status --short)" ] || { echo "repo dirty"; exit 2; }
  bash /opt/vp/build.sh >/dev/null 2>&1; bash "$D/s/demo.sh" >"$D/o1" 2>&1; a=$?
  git apply $S/patch.diff || { echo "does not apply"; exit 2; }
  bash /opt/vp/build.sh >"$D/b" 2>&1 || { echo "BUILD FAILS"; tail -5 "$D/b"; }
  t=$(bash /opt/vp/test.sh "$D/t.json" | tail -1)
  bash "$D/s/demo.sh" >"$D/o2" 2>&1; b=$?
  git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
  echo "$id: demo clean=$a patched=$b tests: $t"; [ $a = 0 ] || tail -5 "$D/o1"; tail -3 "$D/o2"; git status --short; rm -rf "$D";;
checks)
  shift 2; cd /repo || exit 2; [ -z "$(git status --short)" ] || { echo "repo dirty"; exit 2; }
  git apply $S/patch.diff || exit 2
  cd $V; for p in "$@"; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash run.sh $p quick >/tmp/bug.out 2>&1; echo "$id $p exit $? $(grep -h '^violation class\|^VIOLATION' /tmp/bug.out | cut -c1-220 | tr '\n' ' ')"; done
  git -C /repo checkout -q -- .; (cd $V; bash run.sh build >/dev/null 2>&1);;
esac
