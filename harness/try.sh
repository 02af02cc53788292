#!/bin/bash
# try.sh SCALE PROP...
S=$1; shift
for p in "$@"; do rm -f /tmp/$p.json; timeout 900 /verif/harness/target/${PROF:-checked}/mamv run $p --scale $S --seed ${SEED:-1} --out /tmp/$p.json; rc=$?; [ $rc != 0 ] && echo "$p rc $rc"; python3 - <<P
import json
d=json.load(open('/tmp/$p.json'))
for s in d['sections']: print('$p',s['name'],s['evaluations'],s['nontrivial'],s['distinct'],s['secs'],s['labels'])
for f in d['failures']: print('  FAIL',f['section'],f['index'],f['msg'][:400],'|',f['trace'][:600])
P
done
