#!/bin/bash
# tools/fixed.sh C02: record the fix commits of /repo that known_findings.txt does not list yet under property C02
cd "$(dirname "$0")/.."
git -C ${R:-/repo} log --reverse --format='%h %s' | grep -E '^[0-9a-f]+ fix:' | while read h s; do
  grep -q " $h " known_findings.txt || echo "fixed: property=$1 $h ${s#fix: }" >> known_findings.txt
done
