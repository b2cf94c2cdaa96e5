#!/bin/bash
# mkseed.sh <id>: (re)fill seeded/<id> with the demo kit; expects patch.diff, d_demo.cc, meta.json there
cd "$(dirname "$0")/.." || exit 1
s=seeded/$1; mkdir -p $s/kit/tools $s/kit/harness
cp tools/build.py $s/kit/tools/; cp -r shim $s/kit/; cp harness/drv.h tools/demokit/demo.h $s/kit/harness/; cp tools/demokit/demo.sh $s/demo.sh; chmod +x $s/demo.sh
