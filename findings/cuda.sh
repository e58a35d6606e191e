#!/bin/bash
# Demonstrates the defects repaired in the CUDA code: bash cuda.sh <tree>; exit 0 = behaves as specified.
# cuda.cpp runs on a model of the runtime (device memory is out of the host's reach), kernels.cu is type checked.
d=$(cd "$(dirname "$0")" && pwd)
t=${1:-/repo}
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
VF_REPO=$t python3 -c "import sys; sys.path.insert(0, '$d/..'); import vf; vf.cuda_overlay('$w')"
clang++ -std=c++14 -w -mno-avx -DVF_CONCRETE -D__CUDACC__=1 -DLIBFLATARRAY_WITH_CUDA=1 -I"$d/../include/isa/cuda" -include cuda.h -ivfsoverlay "$w/overlay.yaml" -I"$d/../include" -I"$t/include" "$d/cuda.cpp" -o "$w/a" || exit 2
r=0
"$w/a" || r=1
"$w/a" copy || r=1
"$w/a" growing vector || r=1
clang++ -x cuda -nocudainc -nocudalib -fsyntax-only -std=c++14 -w -D__CUDACC__=1 -DLIBFLATARRAY_WITH_CUDA=1 -I"$d/../include/isa/device" -include cuda.h -I"$d/../include" -I"$t/include" --cuda-device-only --cuda-gpu-arch=sm_70 "$d/kernels.cu" 2>&1 | grep error: | head -5 | grep . && r=1
exit $r
