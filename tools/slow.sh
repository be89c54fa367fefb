#!/bin/bash
# run a check verbosely and show only incomplete or slow jobs and the summary
timeout ${T:-900} /verif/bin/engine check -v "$@" 2>&1 | awk '/^map/{m=$0;next} /complete=/{split($0,a,"wall=");w=a[2]+0; if(w>60||/complete=false/) {print m; print "   " substr($0,1,150) " wall=" w} next} /native runs|VIOLATION|not reproduced|disagree|incon  |abort |KNOWN|^  [a-z]+[.][A-Z].* with /{print}'
