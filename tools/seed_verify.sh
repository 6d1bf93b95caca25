#!/bin/bash
# seed_verify.sh ID... : confirms planted bugs in a scratch copy of /repo ( applies, builds, tests pass, demo 0 / nonzero ),
# then applies each to the copy and runs its property's check against the copy ( VERIF_REPO ). Not used by any check.
# With NOCHECK=1 only the confirmation, with NOCONF=1 only the check. CHECKS="C05 C08" overrides the check list.
W=/tmp/seedwt; [ -d $W ] || cp -a /repo $W
git -C $W fetch -q /repo HEAD 2>/dev/null; git -C $W reset -q --hard "$(git -C /repo rev-parse HEAD)" 2>/dev/null || { git -C $W fetch -q /repo && git -C $W reset -q --hard FETCH_HEAD; }
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  T=$(mktemp -d); cp -a $S/. $T/; mv $T/patch.diff $T/meta.json /tmp/ 2>/dev/null
  if [ -z "$NOCONF" ]; then
    ( cd $W; bash $T/demo.sh >/tmp/demo.clean 2>&1 ); a=$?
    git -C $W apply $S/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
    ( cd $W; bash $T/demo.sh >/tmp/demo.bug 2>&1 ); b=$?
    if diff -q $S/patch.diff /dev/null >/dev/null; then :; fi
    files=$(git -C $W diff --name-only | tr '\n' ' ')
    std=ok; if [ -z "$NOBUILD" ]; then sed "s#/repo#$W#g" /opt/vp/build.sh > /tmp/seed_build.sh; bash /tmp/seed_build.sh >/tmp/seed_build.log 2>&1 || std=BUILD-FAILS; fi
    echo "$id [$P]: demo clean=$a bug=$b build=$std files=$files"
  else git -C $W apply $S/patch.diff; fi
  if [ -z "$NOCHECK" ]; then
    for c in ${CHECKS:-$P}; do r=$(cd /verif; VERIF_REPO=$W VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run_check.py $c 2>/tmp/seed_check.err | grep -E "VIOLATION|held" | head -1); echo "   $c: ${r:-NO-ANSWER $(tail -1 /tmp/seed_check.err | cut -c1-200)} | $(grep -m1 violation /tmp/seed_check.err | cut -c1-220)"; done
  fi
  git -C $W checkout -q -- .
done
