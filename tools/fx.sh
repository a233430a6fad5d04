#!/bin/bash
# fx.sh ID: record the last /repo commit as a repair for property ID
echo "fixed: property=$1 $(git -C /repo log -1 --format='%h %s' | sed 's/ fix: / /')" >> /verif/known_findings.txt; tail -1 /verif/known_findings.txt
