#!/bin/bash
# raw.sh REPLAY: runs the plan of a replay file in the race build and shows all the worker prints.
cd "$(dirname "$0")/.."
d=$(ls -td .build/*/ | while read d; do grep -q '"race": *true' $d/meta.json && echo $d && break; done)
python3 -c "
import json,sys
r=json.load(open(sys.argv[1]))
print(json.dumps({'Op':'runplan','Plan':r['Plan'],'Log':True}))" "$1" | env -i TZ=UTC HOME=/root PATH=/usr/bin:/bin GOMAXPROCS=1 GORACE="halt_on_error=1 exitcode=66 history_size=3" ${d}worker 2>&1
