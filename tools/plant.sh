#!/bin/bash
# plant.sh <id>: the uncommitted change of /repo becomes seeded/<id>/patch.diff (and is undone);
# the demonstration kit is laid beside it. Write src/main.rs and meta.json, then confirm.sh <id>.
set -e
d=/verif/seeded/$1
mkdir -p $d/src
git -C /repo diff > $d/patch.diff
git -C /repo checkout -q -- .
[ -s $d/patch.diff ]
cp -r /verif/mqtt-proto $d/
cp /verif/tools/demo/{Cargo.toml,Cargo.lock,demo.sh} $d/
cp /verif/tools/demo/src/kit.rs $d/src/
