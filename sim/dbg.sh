#!/bin/bash
# dbg.sh PROFILE SEED: one run with goroutine dumps at violations, in /tmp/dbg.out
cd "$(dirname "$0")/.."
SIM_VERBOSE=1 SIM_DUMP=1 GODEBUG=asyncpreemptoff=1 GOMAXPROCS=1 GOGC=off .build/sim run "$1" "$2" 2>/tmp/dbg.out >/dev/null
grep -n "VIOLATION" /tmp/dbg.out | cut -c1-300
