#!/bin/bash
# development helper: build one driver, run one mode, validate with one spec
# usage: trybuild.sh driver mode Spec [extra g++ flags]
set -e
d=$1; m=$2; s=$3; shift 3
cd "$(dirname "$0")/.."
mkdir -p /tmp/vpdev
if [ "$NOBUILD" != 1 ]; then g++ -std=c++20 -O1 -w -Iharness -Ishim -I/repo/include -I/repo/vendors/combinations -I/repo/vendors/undirected_graph/source -I/repo/vendors/graph-coloring/Header harness/$d.cpp -o /tmp/vpdev/$d "$@" -lfmt -ltbb -lpthread; fi
mkdir -p /tmp/vpdev/scr
/tmp/vpdev/$d --seed ${SEED:-1} --tier ${TIER:-quick} --mode $m --out /tmp/vpdev/$d.$m.ndjson --scratch /tmp/vpdev/scr
ls -la /tmp/vpdev/$d.$m.ndjson | awk '{print $5}'
cd spec
VP_TRACE=/tmp/vpdev/$d.$m.ndjson timeout ${TO:-300} java -XX:+UseParallelGC -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir /tmp/vpdev/md_$d$m -workers 8 -config ${CFG:-$s.cfg} $s.tla | grep -v "^Computed\|^Semantic\|^Linting\|^Parsing\|^Progress" | tail -${LINES_:-45}
