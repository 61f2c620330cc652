#!/bin/bash
# extract.sh HARNESS.bc OUT.ll entry,entry,...   whole-program bitcode -> optimised textual IR
set -e
B=$(rustc +stable --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
keep=()
for f in $("$B/llvm-nm" --defined-only "$1" | awk '{print $NF}' | grep -E 'BuildHasher8hash_one|cur_timestamp_millis|___rust_(alloc|dealloc|realloc|alloc_zeroed)$|9panicking9panic_fmt$'); do
  keep+=("-force-attribute=$f:noinline" "-force-remove-attribute=$f:alwaysinline")
done
S='sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg'
"$B/opt" "${keep[@]}" -internalize-public-api-list="$3" \
  -passes="forceattrs,internalize,globaldce,function($S),cgscc(inline,function($S)),globaldce" "$1" -S -o "$2"
