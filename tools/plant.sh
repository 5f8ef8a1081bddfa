#!/bin/bash
# plant.sh ID PROP [tier]: records /repo's current uncommitted change as seeded/ID (demo.* and meta.json already there),
# checks that it builds, passes the tests, that the demo tells it from the clean tree, and runs the check(s).
set -u
id=$1; prop=$2; tier=${3:-quick}
S=/verif/seeded/$id
mkdir -p $S
if ! git -C /repo diff --quiet; then git -C /repo diff > $S/patch.diff; else git -C /repo apply $S/patch.diff || exit 9; fi
cat > $S/demo.sh.tmp <<'D'
#!/bin/bash
# exit 0: the property holds for this program; run in the repository root
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/shiva"
cat > "$d/shiva/ShivaConfig.hpp" <<'H'
#pragma once
H
DEFS
g++ STD FLAGS -I "$PWD/include" -I "$d" "$here/demo.cpp" -o "$d/demo" || exit 3
cd "$d" || exit 3
timeout 20 ./demo
D
if [ -f $S/demo.cpp ]; then
  STD=$(grep -o '^// STD .*' $S/demo.cpp | sed 's,// STD ,,'); FLAGS=$(grep -o '^// FLAGS .*' $S/demo.cpp | sed 's,// FLAGS ,,')
  sed -e '/^DEFS$/d' -e "s,STD,-std=${STD:-c++17}," -e "s,FLAGS,${FLAGS:--O0}," $S/demo.sh.tmp > $S/demo.sh; chmod +x $S/demo.sh
fi
rm -f $S/demo.sh.tmp
t=$(bash /tmp/t/tst.sh 2>&1 | head -3 | tr '\n' ' ')
(cd /repo && bash $S/demo.sh >/tmp/p/demo.log 2>&1); r1=$?
for p in ${prop//,/ }; do
  timeout 900 python3-vt /verif/run.py $p --tier $tier > /tmp/p/$id.$p.log 2>&1; rc=$?
  echo "  check $p rc=$rc $(grep -a -m1 -E '^VIOLATION' /tmp/p/$id.$p.log | cut -c1-200)"
done
git -C /repo checkout -- .
(cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && bash $S/demo.sh >/tmp/p/demo0.log 2>&1); r0=$?
echo "$id tests: ${t:0:60} demo patched=$r1 clean=$r0"
