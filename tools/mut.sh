#!/bin/bash
# mut.sh FILE SED_EXPR PID...   applies a sed mutation to a copy of the repository (R), runs the checks on it, undoes it
R=${R:-/tmp/rc}
f=$R/src/sectionproperties/$1; s=$2; shift 2
cp $f /tmp/mut.save
sed -i "$s" $f
cmp -s $f /tmp/mut.save && echo "NO CHANGE: $s"
for p in "$@"; do PYDV_SRC=$R/src timeout 600 python3 /verif/run.py $p -v | cut -c1-${W:-300} | grep -v "^   monitor" | (head -${N:-12}; cat >/dev/null); done
cp /tmp/mut.save $f
