#!/bin/bash
# Compiles the project's tests of the Boost-dependent headers against the
# stand-ins and runs them: how faithful the stand-ins are (see
# standin/README.md). Not a check.
set -u
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
here=$(cd "$(dirname "$0")/.." && pwd); repo=${REPO:-/repo}; export d here repo
one() {
  n=$(basename "$1" .cpp)
  if ! g++ -std=c++20 -O0 -g -DSTANDIN_REAL_TIME -DFITORIA_HAS_FMT -DFITORIA_HAS_ZLIB \
      -DFITORIA_HAS_BROTLI -I"$here/standin" -I"$repo/include" -I"$repo/test/include" \
      "$1" -o "$d/$n" -lfmt -lz -lbrotlienc -lbrotlidec -lpcre2-8 2>"$d/$n.err"; then
    echo "$n: does not compile: $(grep -m1 error: "$d/$n.err")"; return
  fi
  (cd "$d" && timeout 100 "./$n" >"$n.out" 2>&1); echo "$n: exit $? $(grep 'test cases' "$d/$n.out")"
  rm -f "$d/$n"
}
export -f one
ls "$repo"/test/{core,http,web,log,client}/*.cpp "$repo"/test/web/*/*.cpp | grep -v tls \
  | xargs -P 6 -I{} bash -c 'one {}'
