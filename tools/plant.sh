#!/bin/bash
# usage: plant.sh ID   checks seeded/ID: applies, tests pass, demo 0 / nonzero, which checks catch it
# A scratch copy of /repo is used; stable tests are run from it.
id=$1; shift
d=/verif/seeded/$id
w=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo "$w/repo"
cd "$w/repo" || exit 2
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
run_demo() { mkdir -p "$w/d"; cp -a $d/. "$w/d/"; rm -f "$w"/d/*.diff "$w"/d/meta.json; (cd "$w/repo"; DEMO_REPO="$w/repo" timeout 300 bash "$w/d/demo.sh" >"$w/demo.out" 2>&1); echo $?; }
echo "$id demo unpatched: $(run_demo)"; tail -3 "$w/demo.out"
git apply "$d/patch.diff" || { echo "NO APPLY"; exit 1; }
echo "$id demo patched: $(run_demo)"; tail -3 "$w/demo.out"
if [ -z "$NOTESTS" ]; then
. /opt/vp/env.sh
mkdir -p "$w/p"; sed "s#REPO = \"/repo\"#REPO = \"$w/repo\"#" /opt/vp/plugins/no_xpress.py > "$w/p/no_xpress.py"
export PYTHONPATH=$w/p:$w/repo
o=terragraph_planner/optimization
/opt/venv/bin/python -m pytest terragraph_planner -q -p no_xpress -p no:cacheprovider --timeout=300 --continue-on-collection-errors \
    $(for f in ilp_models/test/test_cost_optimization.py ilp_models/test/test_coverage_optimization.py ilp_models/test/test_flow_optimization.py ilp_models/test/test_interference_optimization.py ilp_models/test/test_network_optimization.py ilp_models/test/test_redundancy_optimization.py ilp_models/test/test_xpress.py test/test_topology_interference.py test/test_topology_optimization.py test/test_topology_report.py; do echo --ignore=$o/$f; done) -o junit_family=xunit2 --junitxml="$w/junit.xml" > "$w/test.out" 2>&1
/opt/venv/bin/python /opt/vp/results.py "$w/o.json" "junit:$w/junit.xml" >/dev/null
/opt/venv/bin/python -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$w/o.json'))
k='stable' if 'stable' in b else list(b)[0]
print('$id broken stable tests:', sorted(set(b[k])-set(o['passed']))[:5])"
fi
for p in ${*:-$prop}; do
  VERIF_REPO=$w/repo /verif/check $p quick > "$w/$p.out" 2>&1; rc=$?
  echo "$id check $p rc=$rc $(grep -c ^VIOLATION $w/$p.out) $(grep -m3 key= $w/$p.out | cut -c1-150 | tr '\n' ';')"
done
[ -n "$KEEP" ] || rm -rf "$w"
