#!/bin/bash
# run some checks, short output
for i in "$@"; do timeout 600 python3 run.py $i 2>&1 | tail -${N:-14} | cut -c1-${W:-260}; done
