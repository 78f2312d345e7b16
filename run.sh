#!/bin/bash
# Usage: run.sh PROPERTY [quick|thorough]
# Builds the analyser if needed and runs the check of one property against the
# current source in /repo. Exit 0: the property holds; exit 1: it does not, or
# the analysis could not decide it.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
tool=$here/bin/idcheck
mkdir -p "$here/bin" "$here/evidence"
if ! (cd "$here/sa" && go build -o "$tool.$$" . && mv -f "$tool.$$" "$tool") >"$here/bin/build.$1.log" 2>&1; then
  if [ ! -x "$tool" ]; then
    echo "the analyser does not build:"; tail -20 "$here/bin/build.$1.log"
    exit 1
  fi
fi
[ "$1" = build ] && exit 0
tier=${2:-${VERIF_TIER:-quick}}
timeout 840 "$tool" -property "$1" -repo /repo -verif "$here" -tier "$tier"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "the analyser ended with code $rc"
  f=$here/evidence/$1.violation1.txt
  echo "the analyser ended with code $rc and gave no answer" >"$f"
  echo "VIOLATION property=$1 replay=$f"
  rc=1
fi
exit $rc
