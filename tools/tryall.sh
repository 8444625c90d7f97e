#!/bin/sh
# tryall.sh ms limit mode:Spec:Cxx ... : development helper
ms=$1; lim=$2; shift 2
for m in "$@"; do IFS=: read a b c <<X
$m
X
echo "=== $a"; timeout 300 python3 /verif/tools/try.py conc box,stub box/${b}Trace $c $ms $lim $a 2>&1 | cut -c1-220 | tail -50; done
