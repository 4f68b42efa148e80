#!/bin/bash
# tools/newseed.sh ID: take the current diff of /repo as planted bug ID (demo.c and meta.json are already there)
S=/verif/seeded/$1; mkdir -p $S
git -C /repo diff > $S/patch.diff; git -C /repo checkout -q -- .
[ -f $S/demo.sh ] || cp /verif/tools/demo.sh.template $S/demo.sh
/verif/tools/seedtest.sh $1
