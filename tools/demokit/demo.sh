#!/bin/bash
# Builds the runtime from the current tree with the stand-ins in kit/ and runs the demonstration.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); w=$(mktemp -d)
cp -r "$here/kit" "$w/kit"; cp "$here/d_demo.cc" "$w/kit/harness/"
export VT_REPO=$repo VT_BUILD=$w/build
python3 "$w/kit/tools/build.py" d_demo || { rm -rf "$w"; exit 0; }
cd "$w" && timeout 200 "$w/build/bin/d_demo"; rc=$?
rm -rf "$w"
exit $rc
