#!/bin/bash
# compile.sh harness.cpp out.bc [flags] : symbolic build of a harness against /repo's current source; --rt: build the runtime only
set -e
H=$1; V=$(cd "$(dirname "$0")" && pwd); R=${LS_REPO:-/repo}; shift; OUT=$1; shift || true
INC="-DLS_ENGINE -I$V/harness -isystem $V/model -isystem $V/model_common -isystem $R/source"
FL="-std=c++17 -O1 -Xclang -disable-llvm-passes -gline-tables-only -emit-llvm -c -w -D_GLIBCXX_EXTERN_TEMPLATE=0 -DENABLE_MLPACK=0 -DNDEBUG_LS -fno-vectorize -fno-slp-vectorize -ftrivial-auto-var-init=uninitialized"
RT=${LS_RT:-$V/build/rt.bc}
if [ ! -e "$RT" ] || [ -n "$(find "$V/rt" "$V/model" "$V/model_common" -newer "$RT" -type f | head -1)" ]; then clang++-18 $FL -U__OPTIMIZE__ $INC "$V/rt/rt.cpp" -o "$RT.$$" && mv "$RT.$$" "$RT"; fi
[ "$H" = --rt ] && exit 0
clang++-18 $FL $INC "$@" "$H" -o "$OUT.h.bc"
llvm-link-18 "$OUT.h.bc" "$RT" -o "$OUT.l.bc"
ENT=$(llvm-nm-18 --defined-only "$OUT.h.bc" 2>/dev/null | awk '$3 ~ /^H_/ {printf "%s,", $3}')
opt-18 -passes="internalize,globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline),globaldce,function(sroa,early-cse<memssa>,simplifycfg,instsimplify,dce)" -internalize-public-api-list="${ENT}ls_rt_throw_bad_alloc" -inline-threshold=60 "$OUT.l.bc" -o "$OUT"
rm -f "$OUT.h.bc" "$OUT.l.bc"
