#!/bin/bash
# try.sh harness.cpp entry [engine args...]   compile, link and run one harness entry; brief summary
cd /verif; h=$1; e=$2; shift 2; b=work/try_$(basename $h .cpp)
F="-std=c++26 -DBOOST_HANA_CONFIG_ENABLE_STRING_UDL -ftemplate-backtrace-limit=0 -DBOOST_ASIO_NO_TYPEID $NBSTUB -I/usr/include/jsoncpp -include cstdint -include string -include algorithm -I${REPO:-/repo}/include -I${REPO:-/repo} -Iengine/rt -Iharness"
S="-O1 -gline-tables-only -fno-pic -fno-pie -fno-vectorize -fno-slp-vectorize -D_GLIBCXX_EXTERN_TEMPLATE=0 -fsanitize=shift-exponent,signed-integer-overflow,integer-divide-by-zero,unreachable,return,bounds -fsanitize-trap=all -Wno-everything $XF"
if [ -z "$NC" ]; then clang++-18 $F $S -emit-llvm -c $h -o $b.bc 2>&1 | cut -c1-400 | head -${EL:-12}; [ ${PIPESTATUS[0]} = 0 ] || exit 1
llvm-link-18 $b.bc --only-needed engine/bin/rt.bc -o $b.l.bc || exit 1; fi
/usr/bin/time -f "%es %MKB" engine/bin/nbsym -e $e "$@" -o $b.json $b.l.bc
python3 - $b.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
d['error']=d['error'][:300]
print({k:d[k] for k in ('error','paths','forks','steps','queries','z3_calls','byte_decided','asserts','solver_s','max_query_s','wall_s','path_ends','covers')})
for v in d['violations'][:4]: print('VIO',v['kind'],'|',v['msg'],'|',v['loc'][:200],'|',str(v['inputs'])[:500])
P
