#!/bin/bash
# replay helper: tools/rp.sh ID FILE
cd /verif && python3 run.py $1 --replay $2
