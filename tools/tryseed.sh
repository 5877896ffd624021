#!/bin/bash
# tryseed.sh ID [SECONDS] [PROPS]: demo without and with the patch, stable tests with it, and the check of its property on it.
# Everything happens on a copy of /repo that is mounted over it in a namespace of its own.
if [ "$TRYSEED" != in ]; then
  c=$(mktemp -d /tmp/tryseed.XXXXXX); trap 'rm -rf "$c"' EXIT
  cp -a /repo/. "$c/"; git -C "$c" checkout -q -- .
  TRYSEED=in unshare -Urm bash -c 'mount --bind "$0" /repo && exec "$@"' "$c" "$0" "$@"; exit
fi
verif=$(cd "$(dirname "$0")/.." && pwd)
id=$1; dir=$verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
cd /repo
timeout 300 bash $dir/demo.sh >/tmp/demo.out 2>&1; a=$?
git apply $dir/patch.diff || exit 1
timeout 300 bash $dir/demo.sh >/tmp/demo2.out 2>&1; b=$?
echo "$id: demo $a (want 0) / $b (want non-zero): $(tail -1 /tmp/demo2.out | cut -c1-200)"
[ $a = 0 ] || tail -5 /tmp/demo.out
$verif/tools/stable.sh
for q in $p ${3//,/ }; do (cd $verif && VERIF_SEED=1 VERIF_SECONDS=${2:-40} ./run.sh check $q 2>&1 | cut -c1-300); done
