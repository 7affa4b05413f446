#!/usr/bin/env python3
"""replay.py FILE   runs the failing input recorded in a replay file against the real code of /repo's current tree."""
import json, sys
import check
r = json.load(open(sys.argv[1]))
v = r.get('failing_input')
if not v:
    print('no failing input recorded; failed obligations:')
    for o in r.get('failed_obligations', []):
        print(o['obligation'], '\n', o['verifier'])
    sys.exit(0)
e = check.build_harness()
if e:
    print(e)
    sys.exit(2)
x = check.run_harness(r['property'], v['seed'], v['units'], 60, only=v['case'])
print(json.dumps(x.get('violation') or 'passes now', indent=1))
sys.exit(1 if x.get('violation') else 0)
