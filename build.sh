#!/bin/bash
# build.sh <variant> [harness-group ...]
#   variant asan : libraries of /repo with AddressSanitizer + the named harness programs
#   variant asanbin : command line programs in the asan build tree (after asan)
#   variant rel  : the command line programs of /repo as users build them (Release)
# Everything is built from /repo's current working tree into /verif/build.
set -u
V=${VERIF_DIR:-/verif}
REPO=${REPO_DIR:-/repo}
variant=$1; shift
B=$V/build/${variant%bin}
mkdir -p "$B"
LOG=$B/build.log
J=$(nproc)
common=(-G Ninja -DCMAKE_BUILD_TYPE=Release -DENABLE_TESTS=OFF -DENABLE_GLCACHE=ON -DENABLE_LRB=OFF -DOPT_SUPPORT_ZSTD_TRACE=ON -DCMAKE_EXPORT_COMPILE_COMMANDS=ON -Wno-dev)
die() { echo "build failed: $1"; tail -40 "$LOG"; exit 3; }
case $variant in
asan|asanttl)
  SAN="-O1 -g1 -DNDEBUG -fsanitize=address -fno-omit-frame-pointer -fno-common"
  CF=""
  [ $variant = asanttl ] && CF="-DSUPPORT_TTL=1"
  if [ ! -f "$B/build.ninja" ]; then
    cmake -S "$REPO" -B "$B" "${common[@]}" -DCMAKE_DISABLE_FIND_PACKAGE_Tcmalloc=ON \
      $( [ $variant = asanttl ] && echo -DSUPPORT_TTL=ON ) \
      "-DCMAKE_C_FLAGS_RELEASE=$SAN" "-DCMAKE_CXX_FLAGS_RELEASE=$SAN" >"$LOG" 2>&1 || die configure
  fi
  mkdir -p "$B/h"
  INC="-I$REPO/libCacheSim -I$REPO/libCacheSim/include -I$V/harness $(pkg-config --cflags glib-2.0)"
  DEF="-DENABLE_GLCACHE=1 -DINCLUDE_PRIV=1 -DLOGLEVEL=7 -DOS_LINUX -DSUPPORT_ZSTD_TRACE=1 -DUSE_HUGEPAGE=1 $CF"
  pids=(); srcs=("$@")
  ( cd "$B" && ninja -j $J cachelib admissionC admissionCpp prefetchC evictionC evictionCPP traceReader profiler dataStructure ds_hash utils traceAnalyzerLib cliReaderLib ) >>"$LOG" 2>&1 &
  libpid=$!
  for s in "${srcs[@]}"; do
    # a harness object is rebuilt when any header it can see is newer
    o=$B/h/$s.o
    if [ ! -f "$o" ] || [ -n "$(find "$V/harness" "$REPO/libCacheSim" \( -name '*.h' -o -name '*.hpp' -o -name "$s.cpp" \) -newer "$o" -print -quit)" ]; then
      ( g++ -std=c++17 $SAN $DEF $INC -c "$V/harness/$s.cpp" -o "$o.tmp" >"$o.log" 2>&1 && mv "$o.tmp" "$o" ) &
      pids+=($!)
    fi
  done
  ok=1
  for p in "${pids[@]}"; do wait $p || ok=0; done
  wait $libpid || die libraries
  [ $ok = 1 ] || { for s in "${srcs[@]}"; do [ -s "$B/h/$s.o.log" ] && cat "$B/h/$s.o.log"; done | grep -E 'error|Error' | head -40; echo "harness compile failed"; exit 3; }
  WRAP=; [[ " ${srcs[*]} " == *" p_fuzz "* ]] && WRAP="-Wl,--wrap=mmap -Wl,--wrap=munmap"
  ( cd "$B/h" && g++ $SAN $WRAP -o vt-$(printf '%s-' "${srcs[@]}")x $(printf '%s.o ' "${srcs[@]}") \
      -Wl,--start-group $(find "$B/libCacheSim" -name '*.a') -Wl,--end-group \
      $(pkg-config --libs glib-2.0) -lzstd $(ls /usr/lib/*/libxgboost.so /usr/local/lib/libxgboost.so 2>/dev/null | head -1) -lpthread -lm -ldl ) >>"$LOG" 2>&1 || die link
  ;;
asanbin)
  [ "$B/fastsleep.so" -nt "$V/harness/fastsleep.c" ] || gcc -O1 -shared -fPIC -o "$B/fastsleep.so" "$V/harness/fastsleep.c" >>"$LOG" 2>&1 || die fastsleep
  ( cd "$B" && ninja -j $J "$@" ) >>"$LOG" 2>&1 || die programs
  ;;
rel)
  if [ ! -f "$B/build.ninja" ]; then
    cmake -S "$REPO" -B "$B" "${common[@]}" -DCMAKE_DISABLE_FIND_PACKAGE_Tcmalloc=ON >"$LOG" 2>&1 || die configure
  fi
  [ "$B/fastsleep.so" -nt "$V/harness/fastsleep.c" ] || gcc -O1 -shared -fPIC -o "$B/fastsleep.so" "$V/harness/fastsleep.c" >>"$LOG" 2>&1 || die fastsleep
  ( cd "$B" && ninja -j $J "$@" ) >>"$LOG" 2>&1 || die programs
  ;;
*) echo "unknown variant"; exit 3;;
esac
