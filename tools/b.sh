# usage: b.sh spec.cpp harness...
set -e
s=$1; shift
o=/tmp/vcb/$(basename $s .cpp)$SUF; mkdir -p /tmp/vcb
clang++-18 -std=c++17 -I${REPO:-/repo}/include -I/verif/specs -S -emit-llvm -O0 -Xclang -disable-O0-optnone -fno-exceptions -fno-access-control -gline-tables-only $XF $s -o $o.ll
opt-18 -S -passes='function(sroa,loop-simplify)' $o.ll -o $o.2.ll
python3-vt /verif/vc/symex.py $o.2.ll "$@"
