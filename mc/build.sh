#!/bin/bash
# build.sh OUTDIR [driver...]: builds /repo's efsw (instrumented) and the drivers into OUTDIR
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${EFSW_REPO:-/repo}
OUT=$1; shift
mkdir -p "$OUT/lib" "$OUT/mc"
# the content of the library decides, not its time stamps
SUM=$(cd "$REPO" && find include src/efsw -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$SUM $REPO" != "$(cat "$OUT/lib/sum" 2>/dev/null)" ]; then
  find "$OUT/lib" -name '*.o' -delete
  echo "$SUM $REPO" > "$OUT/lib/sum"
fi
LIBFLAGS="-std=c++11 -O1 -g -fPIC -fstack-protector-all -DNDEBUG -fsanitize=thread -D_GLIBCXX_ASSERTIONS -fno-builtin-free -w -I$REPO/include -I$REPO/src"
cat > "$OUT/redef" <<R
memcpy mc_memcpy
memmove mc_memmove
memset mc_memset
memcmp mc_memcmp
memchr mc_memchr
bcmp mc_bcmp
strlen mc_strlen
malloc mc_malloc
free mc_free
calloc mc_calloc
realloc mc_realloc
strdup mc_strdup
R
cat > "$OUT/exports.map" <<R
{ global: _ZN4efsw*; _ZNK4efsw*; _ZTIN4efsw*; _ZTVN4efsw*; _ZTSN4efsw*; _ZZN4efsw*; efsw_*; local: *; };
R
{
  echo ".DELETE_ON_ERROR:"; echo "all:"
  HDRS=$(find $REPO/include $REPO/src/efsw -name '*.h' -o -name '*.hpp' | tr '\n' ' ')
  HDRS="$HDRS $HERE/build.sh"
  # one library for each back end: the one of Linux, and the one of BSD
  for v in mc kq; do
    OBJS=""
    case $v in mc) VFLAGS="";; kq) VFLAGS="-DEFSW_KQUEUE -I$HERE/kq";; esac
    for f in $REPO/src/efsw/*.cpp $REPO/src/efsw/platform/posix/*.cpp; do
      b=$(basename "$f" .cpp)
      case $b in *FSEvents|*Win32) continue;; *Kqueue) [ $v = mc ] && continue;; *Inotify) [ $v = kq ] && continue;; esac
      o="$OUT/lib/$v-$b.o"
      OBJS="$OBJS $o"
      printf '%s: %s %s\n\tg++ %s %s -c %s -o $@ && objcopy --redefine-syms=%s $@\n' "$o" "$f" "$HDRS" "$LIBFLAGS" "$VFLAGS" "$f" "$OUT/redef"
    done
    printf '%s/lib/libefsw_%s.so: %s\n\tg++ -shared -o $@ %s -Wl,-z,now -Wl,--allow-shlib-undefined -Wl,--version-script=%s/exports.map\n' "$OUT" $v "$OBJS" "$OBJS" "$OUT"
  done
  DRV=""
  for m in engine simfs libc; do
    printf '%s/mc/%s.o: %s/%s.cpp %s/engine.hpp %s/internal.hpp %s/simfs.hpp\n\tg++ -std=c++17 -O2 -g -Wall -c $< -o $@\n' "$OUT" $m "$HERE" $m "$HERE" "$HERE" "$HERE"
  done
  for d in "$@"; do
    v=mc
    [ "$d" = c22 ] && v=kq
    src=$(ls $HERE/../checks/$d.cpp)
    printf '%s/mc/%s.o: %s %s/engine.hpp $(wildcard %s/../checks/*.hpp) %s\n\tg++ -std=c++17 -O1 -g -Wall -I%s -I%s/../checks -I%s/include -I%s/src -c $< -o $@\n' "$OUT" $d "$src" "$HERE" "$HERE" "$HDRS" "$HERE" "$HERE" "$REPO" "$REPO"
    printf '%s/%s: %s/mc/%s.o %s/mc/engine.o %s/mc/simfs.o %s/mc/libc.o %s/lib/libefsw_%s.so\n\tg++ -o $@ $^ -rdynamic -ldl -lpthread -Wl,-rpath,%s/lib\n' "$OUT" $d "$OUT" $d "$OUT" "$OUT" "$OUT" "$OUT" $v "$OUT"
    printf 'all: %s/%s\n' "$OUT" $d
  done
} > "$OUT/Makefile"
make -s -j8 -f "$OUT/Makefile" all
