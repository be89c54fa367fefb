#!/bin/bash
# try.sh harness [params] [more flags]: one exploratory job, short output
h=$1; p=${2:-x=0}; shift; shift
timeout ${T:-300} /verif/bin/engine run -t ${T:-200}s -p "$p" "$@" $h 2>&1 | cut -c1-230 | grep -v '^loaded'
