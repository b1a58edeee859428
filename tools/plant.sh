#!/bin/bash
# plant.sh ID...: confirm planted bugs in a scratch copy mounted over /repo (own user+mount namespace)
# prints, per bug: applies / builds / stable tests / demo clean+patched / the property's check
W=/tmp/plant.$$
mkdir -p $W && cp -a /repo $W/repo
trap 'rm -rf "$W"' EXIT
cp /verif/tools/cmp.py $W/
for id in "$@"; do
  D=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  rm -rf $W/demo && mkdir $W/demo && cp $D/* $W/demo/ && rm -f $W/demo/*.diff $W/demo/meta.json
  timeout 1800 unshare -Urm bash -c "
    mount --bind $W/repo /repo; cd /repo; git checkout -q -- .
    bash /opt/vp/build.sh >/dev/null 2>&1 || echo 'clean build failed'
    bash $W/demo/demo.sh >$W/d0 2>&1; c=\$?
    git apply $D/patch.diff || { echo '$id: DOES NOT APPLY'; exit; }
    bash /opt/vp/build.sh >$W/b 2>&1 || { echo '$id: DOES NOT BUILD'; tail -5 $W/b; exit; }
    bash $W/demo/demo.sh >$W/d1 2>&1; p=\$?
    bash /opt/vp/test.sh $W/out.json >/dev/null 2>&1; t=\$(python3 $W/cmp.py $W/out.json)
    echo \"$id: demo clean=\$c patched=\$p (\$(tail -1 $W/d1)) tests \$t\"
    if [ -z \"$NOCHECK\" ]; then
      s=\$(date +%s); python3 /verif/check.py $P --tier quick >$W/c 2>&1; r=\$?
      echo \"   check $P: exit \$r (\$((\$(date +%s)-s)) s) \$(grep -A1 -E '^  [a-z_0-9.]+$' $W/c | head -2 | tr '\n' ' ')\"
      [ -n \"$V\" ] && cat $W/c
    fi
    git checkout -q -- ."
done
