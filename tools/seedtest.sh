#!/bin/bash
# seedtest.sh ID... : validates planted bugs in a scratch copy (/tmp/w): applies, builds, tests, demo fails with / passes without, check catches.
W=/tmp/w
REP=${HX_REPO:-/repo}; VER=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p $W
rsync -a --delete --exclude build --exclude .git $REP/ $W/ 
sed "s#/repo#$W#g" /opt/vp/build.sh > /tmp/w_build.sh
for id in "$@"; do
  D=$VER/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  rsync -a --delete --exclude build --exclude .git $REP/ $W/
  T=$(mktemp -d /tmp/seedXXXX); cp -a $D/. $T/; rm -f $T/*.diff $T/meta.json
  (cd $W && timeout 300 bash $T/demo.sh) >/tmp/seed_$id.clean 2>&1; c0=$?
  (cd $W && patch -p1 -s < $D/patch.diff) || { echo "$id: PATCH FAILS"; continue; }
  (cd $W && timeout 300 bash $T/demo.sh) >/tmp/seed_$id.bug 2>&1; c1=$?
  b=skipped; t=skipped
  if [ -z "$NOBUILD" ]; then
    bash /tmp/w_build.sh >/tmp/seed_$id.build 2>&1; b=$?
    rm -rf $W/build/vp-reports; mkdir -p $W/build/vp-reports
    find $W/build/output/tests -type f \( -name '*.db' -o -name '*.test' -o -name 'savefile.txt' \) -delete 2>/dev/null
    sed "s#/repo#$W#g" /opt/vp/run_tests.py > /tmp/w_run_tests.py
    python3 /tmp/w_run_tests.py $W/build $W/build/vp-reports >/tmp/seed_$id.tests 2>&1
    python3 /opt/vp/results.py /tmp/seed_$id.json "junit:$W/build/vp-reports/*.xml" "lines:$W/build/vp-reports/*.lines" >/dev/null 2>&1
    t=$(python3 - <<X
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_$id.json'))
base=b['stable']; ps=set(x.replace('$W/','/repo/') for x in o['passed'])
miss=[x for x in base if x not in ps]
print(len(base)-len(miss),'/',len(base),miss[:3])
X
)
  fi
  rm -rf $T
  (cd $VER && HX_REPO=$W timeout 900 python3 tools/check.py $P ${TIER:-quick}) >/tmp/seed_$id.check 2>&1; k=$?
  echo "$id: demo clean=$c0 bug=$c1 build=$b tests=$t check($P)=$k $(grep -m1 VIOLATION /tmp/seed_$id.check)"
done
rsync -a --delete --exclude build --exclude .git $REP/ $W/
