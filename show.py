#!/usr/bin/env python3
"""show.py <property> [n]: summarize the replay files of the last run."""
import json, sys, glob, os, collections
fs = sorted(glob.glob('/verif/evidence/replay/%s/*.json' % sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 6
c = collections.Counter()
for f in fs:
    r = json.load(open(f))
    c[r['what'][:150]] += 1
for k, v in c.most_common(): print(v, k)
seen = set()
for f in fs:
    r = json.load(open(f))
    if r['what'] in seen or len(seen) >= n: continue
    seen.add(r['what'])
    print('---', f, r['what'])
    try:
        d = json.loads(r['detail'])
        print('  ', d['event_index'], d['clauses'], json.dumps(d['event'])[:1500])
    except Exception:
        print(r['detail'][-1500:])
