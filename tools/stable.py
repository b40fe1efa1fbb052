#!/usr/bin/env python3
"""stable.py OUT.json: which stable tests did not pass"""
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
p=set(o['passed']); m=[t for t in b['stable'] if t not in p]
print(len(m),'stable tests not passing',m[:20]); sys.exit(bool(m))
