#!/bin/bash
# all.sh [tier] [ID...]: run all (or the given) checks one after another
cd /verif; t=${1:-quick}; shift; for i in ${*:-$(ls harness/*[0-9].cpp | sed 's/.*\///; s/.cpp//')}; do s=$(date +%s); r=$(./check $i $t 2>&1); c=$?; echo "$i rc=$c $(($(date +%s)-s))s $(echo "$r" | grep -E "executions|VIOLATION|KNOWN|ERROR" | head -3 | tr '\n' ' ')"; done
