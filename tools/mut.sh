#!/bin/bash
# mut.sh PROP[,PROP...] FILE PYEXPR-OLD PYEXPR-NEW [SECONDS]: replaces text in a scratch copy of /repo and runs the checks on it.
set -e
d=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo/. "$d/"
python3 - "$d/$2" "$3" "$4" <<'P'
import sys
p,a,b=sys.argv[1:]
s=open(p).read()
a=a.encode().decode('unicode_escape'); b=b.encode().decode('unicode_escape')
assert s.count(a)>=1,"not found: "+a
open(p,'w').write(s.replace(a,b,1))
P
for p in ${1//,/ }; do
  DST_REPO=$d VERIF_SECONDS=${5:-20} timeout 600 ./run.sh check $p 2>&1 | cut -c1-400
done
