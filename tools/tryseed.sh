#!/bin/bash
# tryseed.sh ID... : demo on the clean tree and on a patched copy, checks of the property on the copy; with TESTS=1 the stable tests too
one() {
  id=$1; s=/verif/seeded/$id; w=$(mktemp -d /tmp/seed.XXXX)
  cp -a /repo/. $w/; ( cd $w && git apply $s/patch.diff ) || { echo "$id: DOES NOT APPLY"; return; }
  ( cd /repo && timeout 300 bash $s/demo.sh >$w/.clean 2>&1 ); a=$?
  ( cd $w && timeout 300 bash $s/demo.sh >$w/.bug 2>&1 ); b=$?
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  c=-; t=-
  if [ -z "$NOCHECK" ]; then NANNOS_REPO=$w timeout 900 /verif/check $p >$w/.chk 2>&1; c=$?; fi
  if [ -n "$TESTS" ]; then
    t=$(unshare -Urm bash -c "mount --bind $w /repo && bash /opt/vp/test.sh $w/.out.json >/dev/null 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$w/.out.json'))
m=[x for x in b['stable'] if x not in set(o['passed'])]
print(len(m), m[:3])
P")
  fi
  echo "$id [$p]: demo clean=$a bug=$b  check=$c  failing stable tests=$t"
  [ "$a" != 0 ] && tail -3 $w/.clean
  [ "$b" = 0 ] && tail -3 $w/.bug
  [ "$c" != 1 ] && [ -f $w/.chk ] && tail -3 $w/.chk | cut -c1-300
  rm -rf $w
}
for i in "$@"; do one $i & while [ $(jobs -r | wc -l) -ge ${J:-4} ]; do sleep .5; done; done; wait
