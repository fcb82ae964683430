#!/usr/bin/env python3
# Prints the behaviour of a replay file up to the failing step.
import json, sys
r = json.load(open(sys.argv[1]))
print(r['msg'], r['step'])
for s in r['behaviour']['steps'][:r['step'] + 1]:
    print(json.dumps(s['a']), json.dumps(s['o']))
print(s['t'])
