#!/bin/bash
# usage: plant.sh ID [notest]   -- validate seeded/ID in a scratch copy of /repo, then run its property's quick check on it
ID=$1; S=/verif/seeded/$ID; W=/tmp/plant/$ID
mkdir -p /tmp/plant; [ -d "$W" ] && rm -rf "/tmp/plant/$ID"
cp -a /repo "$W" || exit 2
export HOME=/root LANG=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
(cd "$W" && timeout 300 bash "$S/demo.sh" >/tmp/plant/$ID.demo0 2>&1); echo "$ID demo unchanged: $?"
git -C "$W" apply "$S/patch.diff" || { echo "$ID PATCH FAILS"; exit 1; }
(cd "$W" && timeout 300 bash "$S/demo.sh" >/tmp/plant/$ID.demo1 2>&1); echo "$ID demo patched: $?"
PROP=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$S/meta.json")
if [ "$2" != notest ]; then
T=$W/kats/tests
(cd "$W/kats" && PYTHONPATH=$W timeout -k 10 1500 /opt/venv/bin/pytest --rootdir=$W -q -p no:cacheprovider --timeout=600 --continue-on-collection-errors \
  -o junit_family=xunit2 --junitxml=/tmp/plant/$ID.xml -n ${N:-6} --ignore=$T/detectors/meta_learning/test_hpt_tuning.py --ignore=$T/models/test_globalmodel.py \
  --ignore=$T/models/test_lstm_model.py --ignore=$T/models/test_metalearner.py --ignore=$T/models/test_parameter_tuning_default_search_space.py \
  --ignore=$T/utils/test_time_series_parameter_tuning.py $T >/tmp/plant/$ID.test 2>&1)
/usr/bin/python3 - "$ID" <<'P'
import json, sys, xml.etree.ElementTree as E
i = sys.argv[1]
bad, ok = set(), 0
for c in E.parse("/tmp/plant/%s.xml" % i).iter("testcase"):
    n = (c.get("classname"), c.get("name"))
    if c.find("failure") is not None or c.find("error") is not None: bad.add(n)
    else: ok += 1
known = set(map(tuple, json.load(open("/tmp/plant/known_bad.json")))) if __import__("os").path.exists("/tmp/plant/known_bad.json") else None
if known is None: json.dump(sorted(bad), open("/tmp/plant/known_bad.json", "w")); print("recorded", len(bad), ok)
else: print(i, "tests: ok", ok, "bad", len(bad), "NEW FAILURES:", sorted(bad - known))
P
fi
[ -f /verif/dst/checks/$(echo $PROP | tr C c).py ] && { (cd /verif; VERIF_REPO=$W VERIF_TIER=quick timeout 900 ./check.sh check $PROP >/tmp/plant/$ID.check 2>&1); echo "$ID check $PROP: $? $(grep VIOLATION /tmp/plant/$ID.check | head -3)"; git -C /verif checkout -q -- replays 2>/dev/null; }
rm -rf "/tmp/plant/$ID"
