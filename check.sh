#!/bin/bash
# check.sh ID [harness options]: builds the harness from /repo's working tree and runs one check.
id=$1; shift
bash /verif/build.sh rotation || { echo "harness build failed" >&2; exit 2; }
mkdir -p /verif/evidence /verif/replays
ev=/verif/evidence/$id.json
bin=/verif/harness/target/rotation/release/ovharness
[ "$id" = C11 ] || exec "$bin" check "$id" --evidence "$ev" "$@"
# Leader election is compiled in two ways; the property is decided for both.
bash /verif/build.sh random || { echo "harness build failed" >&2; exit 2; }
"$bin" check C11 --evidence "$ev" "$@"
rc=$?
"/verif/harness/target/random/release/ovharness" check C11R --evidence /verif/evidence/.C11R.json "$@"
rc2=$?
python3 - "$ev" /verif/evidence/.C11R.json <<'P'
import json, sys, os
a, b = [json.load(open(p)) for p in sys.argv[1:3]]
c, d = a["coverage"], b["coverage"]
c["rotation"] = {k: c[k] for k in ("evaluations", "distinct_nontrivial", "cases_with", "totals")}
c["weighted_lots"] = {k: d[k] for k in ("evaluations", "distinct_nontrivial", "cases_with", "totals")}
for k in ("evaluations", "distinct_nontrivial", "planned_cases"):
    c[k] += d[k]
c["samples"] = c["samples"] + ["(weighted lots) " + s for s in d["samples"]]
for k in ("cases_with", "totals"):
    c.pop(k)
a["wall_s"] += b["wall_s"]
a["violations"] += b["violations"]
json.dump(a, open(sys.argv[1], "w"), indent=1)
os.remove(sys.argv[2])
P
[ $rc -eq 1 ] || [ $rc2 -eq 1 ] && exit 1
[ $rc -eq 0 ] && [ $rc2 -eq 0 ] || exit 2
exit 0
