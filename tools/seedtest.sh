#!/bin/bash
# seedtest.sh ID [PID...]: applies a planted bug to a scratch copy of /repo and runs the checks (default: the bug's property) against it.
V=/verif; id=$1; shift; P="$*"; [ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
W=/tmp/seedrepo; mkdir -p $W
(cd /repo && git ls-files) > /tmp/seedfiles; while read f; do if ! cmp -s /repo/$f $W/$f; then mkdir -p $(dirname $W/$f); cp /repo/$f $W/$f; fi; done < /tmp/seedfiles
[ -d $W/.git ] || git -C $W init -q
[ "$id" = clean ] || (cd $W && git apply $V/seeded/$id/patch.diff) || exit 9
for p in $P; do VERIF_REPO=$W VERIF_BUILD=/tmp/seedbuild VERIF_EVIDENCE=/tmp/seedev python3 $V/run.py $p ${TIER:-quick} > /tmp/seedout 2>&1; echo "$id $p rc=$? $(grep -m1 VIOLATION /tmp/seedout | cut -c1-150)"; grep -v VIOLATION /tmp/seedout | tail -${LINES_OUT:-2} | cut -c1-300; done
