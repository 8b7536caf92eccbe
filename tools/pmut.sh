#!/bin/bash
# Runs mutant files in parallel with a copy of the checker: pmut.sh N FILE...
# Prints what is not as expected.
n=$1; shift
C=$(mktemp /tmp/check.XXXXXX); cp /verif/bin/check "$C"; chmod +x "$C"
cd /verif
for f in "$@"; do
  python3 -c "import runpy,sys;[print('$f',m['name']) for m in runpy.run_path('$f')['MUTS']]"
done | CHECK="$C" xargs -P "$n" -n 2 sh -c 'python3 tools/mut.py "$0" "$1" 2>&1 | grep -v "^bad: "'
rm -f "$C"
