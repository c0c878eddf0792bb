#!/bin/bash
# one.sh PROFILE SEED: event trace of one run on stdout (service logs included)
SIM_VERBOSE=1 GODEBUG=asyncpreemptoff=1 GOMAXPROCS=1 GOGC=off ${SIM_BIN:-/verif/.build/sim} run "$1" "$2" 2>&1 >/dev/null
