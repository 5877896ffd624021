#!/bin/bash
# logtail.sh REPLAY [N]: the violation and the last N log lines of a replay in the plain build.
"$(dirname "$0")/rawn.sh" "$1" 2>&1 | python3 -c "
import sys,json
for l in sys.stdin:
    try: j=json.loads(l)
    except Exception: print(l[:300]); continue
    r=j.get('Result')
    if r:
        print(r['Violation'][:1500], '\nNOTE', r.get('Note','')[:2500]); print('\n'.join(x[:300] for x in r['Log'][-${2:-60}:]))
"
