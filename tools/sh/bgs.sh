#!/bin/bash
# bgs.sh ID seeds... : run several seeds of quick
cd /verif
for s in "${@:2}"; do ./run.py $1 --seed $s 2>&1 | cut -c1-700 | tail -3; done
