#!/bin/bash
# revert.sh COMMIT PROP...: run checks against a copy of /repo with one commit undone
c=$1; shift
d=$(mktemp -d /tmp/rv.XXXXXX); cp -a /repo/. $d/; cd $d; git update-index -q --refresh
if ! git diff $c $c~1 | git apply -3 2>/tmp/rv.err; then echo "$c: revert conflicts"; cat /tmp/rv.err | tail -3; rm -rf $d; exit; fi
for p in "$@"; do (cd /verif; WCPL_REPO=$d timeout 600 node sim/run.js $p 2>&1 | grep -E "run [0-9]+ seed|VIOLATION|held|rror" | head -3); done
rm -rf $d
