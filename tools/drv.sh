p=$1; secs=${2:-5}; clang++-18 -std=c++17 -g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=nonnull-attribute,pointer-overflow -I${REPO:-/repo}/include -I/verif/replay $XF /verif/replay/$p.cpp -o /tmp/drv_$p -lpthread && ASAN_OPTIONS=allocator_may_return_null=1:detect_leaks=1:max_allocation_size_mb=2048 /tmp/drv_$p 1 $secs 2>&1 | grep -vE 'WARNING: AddressSanitizer' | head -${L:-30}
