#!/bin/bash
# runs every registered check, several at a time; lists those that are not completely decided
cd "$(dirname "$0")/.."
ids=$(python3 -c "
import sys; sys.path.insert(0,'sa')
from registry import REG; print(*sorted(REG))")
T=${1:-quick}
one() {
  o=$(./run.sh $1 $2 2>&1); r=$?
  l=$(echo "$o" | grep "^$1:")
  s="$l exit $r"
  case "$l" in *" 0 undecided"*) ;; *) s="$s
$(echo "$o" | grep undecided: | head -3)";; esac
  [ $r = 0 ] || s="$s
$(echo "$o" | tail -5)"
  echo "$s"
}
export -f one
./run.sh setup > /dev/null 2>&1
printf '%s\n' $ids | xargs -P 4 -I{} bash -c "one {} $T" | sort
