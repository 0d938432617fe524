#!/bin/bash
# debugging aid: group.sh q|t PROP... : runs every entry of the properties
cd /verif; K=$1; shift
for p in "$@"; do
  E=$(grep -oh "^ *h_${p}_${K}_[a-z0-9_]*" harness/src/*.rs | tr -d ' '); tools/run.sh $E 2>&1 | cut -c1-${W:-210}; done
