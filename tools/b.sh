#!/bin/bash
# developer helper: b.sh NAME CHART "flags" [symex options]
set -e
N=$1; C=$2; F=$3; shift 3; B=/tmp/vb/$N; mkdir -p $B; R=${REPO:-/repo}
python3 /verif/tools/gen_chart.py $C $B/chart.cpp ${SEED:-1} ${GEN:-}
I="-std=c++17 -w -I/verif/harness -I$R/include -I/opt/vp/boost-root/guard -I/opt/vp/boost-root -DBOOST_ENABLE_ASSERT_HANDLER -DBOOST_DISABLE_THREADS $F"
clang++-18 $I -DVF_IR -O1 -Xclang -disable-llvm-passes -gline-tables-only -emit-llvm -c $B/chart.cpp -o $B/c.bc &
clang++-18 $I -DVF_IR -O1 -Xclang -disable-llvm-passes -gline-tables-only -emit-llvm -c /verif/harness/rt.cpp -o $B/rt.bc &
(if [ -n "$NAT" ]; then g++ $I -g1 -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined $B/chart.cpp /verif/harness/rt.cpp /verif/harness/native.cpp -o $B/nat; fi) &
wait
/verif/build/symex $B/c.bc $B/rt.bc --out $B/r.json "$@"
