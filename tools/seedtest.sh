#!/bin/bash
# usage: seedtest.sh ID...   confirms a planted bug in a scratch copy: applies, builds, tests pass, demo 0 before / nonzero after
. /verif/env.sh
for id in "$@"; do
  d=/verif/seeded/$id
  w=/tmp/seedtest.$$; rm -rf "/tmp/seedtest.$$"; cp -a /repo $w
  cp -a $d /tmp/seeddemo.$$; rm -f /tmp/seeddemo.$$/*.diff /tmp/seeddemo.$$/meta.json
  (cd $w && bash /tmp/seeddemo.$$/demo.sh >/tmp/seed0.$$ 2>&1); a=$?
  (cd $w && git apply $d/patch.diff) || echo "$id: patch does not apply"
  (cd $w && go build ./... && go vet ./core ./lib ./engine >/dev/null 2>&1; go test ./... 2>&1 | grep -v '^ok\|no test files' | grep FAIL | head -5)
  (cd $w && bash /tmp/seeddemo.$$/demo.sh >/tmp/seed1.$$ 2>&1); b=$?
  echo "$id: demo before=$a after=$b"
  [ $a -ne 0 ] && tail -5 /tmp/seed0.$$
  [ $b -eq 0 ] && tail -5 /tmp/seed1.$$
  rm -rf "/tmp/seedtest.$$" "/tmp/seeddemo.$$" "/tmp/seed0.$$" "/tmp/seed1.$$"
done
