#!/bin/bash
# check.sh ID : build from /repo's working tree, then run the seeded search.
cd "$(dirname "$0")" || exit 4
ID=$1
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
mkdir -p evidence replays build
(
  flock 9
  bash sim/build.sh build
) 9>build/.lock >build/build.log 2>&1 || { echo "BUILD FAILED"; tail -20 build/build.log; exit 4; }
rm -f "evidence/$ID.json"
exec build/simx --prop "$ID" --inst build/lib --seed "$SEED" --tier "$TIER" --findings findings/list.txt --evidence "evidence/$ID.json" --replays replays ${SIM_ARGS}
