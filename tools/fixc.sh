#!/bin/bash
# fixc.sh <property> <message>: commits the working-tree change of /repo as a fix and records it
set -e
git -C ${HX_REPO:-/repo} add -u; git -C ${HX_REPO:-/repo} commit -qm "fix: $2"
echo "fixed: property=$1 $(git -C ${HX_REPO:-/repo} rev-parse --short HEAD) $2" >> "$(dirname "$0")/../known_findings.txt"
git -C ${HX_REPO:-/repo} log --oneline | head -1
