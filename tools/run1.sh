# run1.sh harness(.c) entry cfg nshards time [extra] : build + run
cd /tmp/lib && [ -n "$NOLIB" ] || sh build.sh
F="-O1 -DNDEBUG -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -gline-tables-only -emit-llvm -c"
[ -f /tmp/libc.bc ] || clang $F -w /verif/harness/stub_libc.c -o /tmp/libc.bc
h=$1; e=$2; c=$3; n=$4; t=$5; shift 5
clang $F -w -std=c11 -I${REPO:-/repo}/include -I/verif/harness /verif/harness/$h.c -o /tmp/h_$h.bc || exit 1
clang $F -DCFG=$c /verif/harness/stub_cfg.c -o /tmp/cfg$c.bc
llvm-link /tmp/lib.bc /tmp/libc.bc --override=/tmp/cfg$c.bc /tmp/h_$h.bc -o /tmp/m_$h_$c.bc
time bash /tmp/par.sh /tmp/m_$h_$c.bc $e $n $t $*
