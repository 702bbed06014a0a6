#!/bin/bash
# runall.sh [jobs]: every check once, quick tier; prints the exit status and last lines of each, logs in /tmp/runall
cd "$(dirname "$0")/.."; mkdir -p /tmp/runall
ls checks/c[0-9]*.py | sed 's/.*c\([0-9]*\)_.*/C\1/' | xargs -P ${1:-6} -I{} sh -c '/opt/venv/bin/python run.py {} --tier quick >/tmp/runall/{}.out 2>/tmp/runall/{}.err; echo "{} rc=$? $(tail -1 /tmp/runall/{}.out)"'
