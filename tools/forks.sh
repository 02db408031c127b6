#!/bin/bash
# where do the paths of a scenario come from: forks.sh PROPERTY SCENARIO (for debugging)
cd $(dirname $0)/..; rm -rf /dev/shm/srcheck_*; SR_FORKLOG=1 timeout 200 ./check $1 quick --only "$2" --keep >/dev/null 2>&1; cd /dev/shm/srcheck_*
cat run_*/stderr | grep ^FORK | head -${3:-400} | cut -d' ' -f2- | sort | uniq -c | sort -nr | head -12 | while read c a; do echo "== $c"; addr2line -Cfe sym $a | paste - - | grep -v "rt.cpp\|??:" | awk '{n=split($0,x,"\t"); print substr(x[1],1,110) " | " x[2]}' | head -7; done
rm -rf /dev/shm/srcheck_*
