#!/bin/bash
# Takes the cost of the quick checks from vcheck's logs: tools/cost.sh LOGDIR
python3 - "$1" <<'P'
import sys,glob,re,json,os
p='/verif/design/cost.json'; c=json.load(open(p))
for f in sorted(glob.glob(sys.argv[1]+'/clean.*.log')):
    for m in re.finditer(r'^(\w\d\d): (\d+) cases \((\d+) distinct, non-trivial\), 0 violations, ([\d.]+)s', open(f).read(), re.M):
        c[m[1]]=f"quick: {m[2]} cases ({m[3]} distinct and non-trivial), {round(float(m[4]))} s on 8 cores"
json.dump(c,open(p,'w'),indent=0,sort_keys=True)
P
