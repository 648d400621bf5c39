#!/bin/sh
# check.sh ID: decides the property ID on /repo's current source.
cd "$(dirname "$0")" || exit 1
new=0
[ -x bin/tokcheck ] || new=1
[ $new = 0 ] && [ -n "$(find tool -maxdepth 1 -newer bin/tokcheck -name '*.go' | head -1)" ] && new=1
[ $new = 1 ] && { sh ./build.sh >&2 || { echo "VIOLATION property=$1 replay=build.sh"; exit 1; }; }
export VERIF_DIR="$PWD"
./bin/tokcheck check "$1"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "VIOLATION property=$1 replay=check.sh"
  exit 1
fi
exit $rc
