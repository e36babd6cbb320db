#!/bin/bash
# every prog*.sy: compiled for the targets in its "//run: target level inputs..." lines, executed on a machine model of the target, output compared with prog*.out
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -O1 -w -std=c++17 -I"$D" "$D/run.cpp" -o "$W/run" || exit 2
rc=0
for p in "$D"/prog*.sy; do
  while read -r _ t o in; do
    if ! timeout 60 /repo/_build/bin/cmmc -t $t -O $o --with-runtime=false -w 0 -o "$W/a.s" "$p" >"$W/log" 2>&1; then echo "$(basename $p) $t -O$o: compiler failed: $(tail -c 300 "$W/log")"; rc=1; continue; fi
    timeout 100 "$W/run" $t "$W/a.s" $in >"$W/out" 2>&1
    if ! cmp -s "$W/out" "${p%.sy}.out"; then echo "$(basename $p) $t -O$o $in: got $(head -c 300 "$W/out" | tr '\n' '~') expected $(head -c 300 "${p%.sy}.out" | tr '\n' '~')"; rc=1; fi
  done < <(grep '^//run:' "$p")
done
exit $rc
