#!/bin/bash
# run every check, one line each
cd "$(dirname "$0")/.."
for f in checks/[A-Z][0-9][0-9].py; do p=$(basename $f .py); [ -n "$1" ] && ! [[ " $* " == *" $p "* ]] && continue
s=$(date +%s); timeout 900 /opt/venv/bin/python -W ignore run.py $p > /tmp/all.$p.log 2>&1; r=$?; echo "$p rc=$r $(( $(date +%s)-s ))s $(tail -1 /tmp/all.$p.log)"; done
