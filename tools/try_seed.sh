#!/bin/bash
# try_seed.sh <seeded id> [property...]: does a planted bug build, pass the tests, fail its demo, and get caught?
# Works in a scratch copy of /repo in /tmp/seed (made once, kept up to date).
id=$1; shift; V=$(cd "$(dirname "$0")/.." && pwd); R=/tmp/seed/repo
mkdir -p /tmp/seed/cmake /tmp/seed/build /tmp/seed/demo
rsync -a --delete --exclude=_build --exclude=.git /repo/ $R/ 2>/dev/null || { mkdir -p $R; (cd /repo && tar c --exclude=_build --exclude=.git .) | tar x -C $R; }
sed "s|/repo|$R|g" /opt/vp/cmake/CMakeLists.txt > /tmp/seed/cmake/CMakeLists.txt.new
cmp -s /tmp/seed/cmake/CMakeLists.txt.new /tmp/seed/cmake/CMakeLists.txt || cp /tmp/seed/cmake/CMakeLists.txt.new /tmp/seed/cmake/CMakeLists.txt
[ -f $R/_build/build.ninja ] || cmake -S /tmp/seed/cmake -B $R/_build -G Ninja > /tmp/seed/cmake.log 2>&1
rm -rf /tmp/seed/demo; cp -r $V/seeded/$id /tmp/seed/demo; rm -f /tmp/seed/demo/patch.diff /tmp/seed/demo/meta.json
props=${@:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
cd $R
bash /tmp/seed/demo/demo.sh > /tmp/seed/demo0.log 2>&1; d0=$?
[ -f /tmp/seed/touched ] && (xargs -r touch < /tmp/seed/touched); sed -n "s,^+++ b/,,p" $V/seeded/$id/patch.diff > /tmp/seed/touched
patch -p1 -s < $V/seeded/$id/patch.diff || { echo "$id: PATCH FAILS"; exit 1; }
grep -qE '^\+\+\+ b/(test|_build)' $V/seeded/$id/patch.diff && echo "touches tests"
bash /tmp/seed/demo/demo.sh > /tmp/seed/demo1.log 2>&1; d1=$?
missing=skipped
if [ -z "$NOTEST" ]; then
  ninja -C $R/_build > /tmp/seed/ninja.log 2>&1 && ninja -C $R/_build tests >> /tmp/seed/ninja.log 2>&1 || echo "BUILD FAILS"
  rm -f $R/_build/ctest.xml; ctest --test-dir $R/_build -j8 --timeout 300 --output-junit $R/_build/ctest.xml > /tmp/seed/ctest.log 2>&1
  sed -i 's/ classname="[^"]*"//' $R/_build/ctest.xml; python3 /opt/vp/results.py /tmp/seed/out.json junit:$R/_build/ctest.xml > /dev/null 2>&1
  missing=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); p=set(json.load(open('/tmp/seed/out.json'))['passed']); print([t for t in b['stable'] if t not in p][:5])")
fi
echo "$id: demo $d0 -> $d1, failing tests $missing"
for p in $props; do
  out=$(cd $V && VERIF_REPO=$R VERIF_BUILD=/tmp/seed/build timeout 900 python3 check.py $p ${TIER:-quick} 2>&1); rc=$?
  echo "   $p rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
done
