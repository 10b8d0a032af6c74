#!/bin/bash
# build.sh OUTDIR [target...]: compiles /repo's current sources with the harnesses.
# Nothing is written outside OUTDIR.
set -e
REPO=${VERIF_REPO:-/repo}
H=$(cd "$(dirname "$0")" && pwd)
OUT=$1; shift
mkdir -p "$OUT"
W="-w -g -std=gnu11 -I$REPO/include -I$REPO/src"
ASAN="-O1 -fsanitize=address -fno-omit-frame-pointer"
WRAPS=""
for f in malloc calloc realloc free strdup strndup dup fcntl uncompress fopen fwrite rand pthread_mutex_lock pthread_mutex_unlock; do
  WRAPS="$WRAPS -Wl,--wrap=$f"
done
for t in "$@"; do
  case $t in
  driver)
    mkdir -p "$OUT/obj"
    ls "$REPO"/src/*.c | xargs -P 8 -I{} sh -c 'gcc '"$W $ASAN -fno-builtin-strdup -fno-builtin-strndup"' -c "$1" -o "'"$OUT"'/obj/$(basename "$1" .c).o"' _ {}
    gcc $W $ASAN -fno-builtin-strdup -fno-builtin-strndup "$H/driver.c" "$OUT"/obj/*.o $WRAPS -o "$OUT/driver" -lz -lpthread
    ;;
  sample)
    mkdir -p "$OUT/sobj"
    ls "$REPO"/src/*.c "$REPO"/sample/enclose_io_unix.c | xargs -P 8 -I{} sh -c 'gcc '"$W -I$REPO/sample -D_GNU_SOURCE $ASAN -fno-builtin-strdup -fno-builtin-strndup"' -c "$1" -o "'"$OUT"'/sobj/$(basename "$1" .c).o"' _ {}
    gcc $W -I$REPO/sample -DSAMPLE $ASAN -fno-builtin-strdup -fno-builtin-strndup "$H/driver.c" "$OUT"/sobj/*.o $WRAPS -Wl,--wrap=dlopen -Wl,--wrap=execv -o "$OUT/sample" -lz -lpthread -ldl
    ;;
  conc)
    # the sanitizer's instrumentation, without its runtime: conc.c provides the calls
    mkdir -p "$OUT/cobj"
    ls "$REPO"/src/*.c | xargs -P 8 -I{} sh -c 'gcc '"$W"' -O1 -fsanitize=thread -fno-builtin -c "$1" -o "'"$OUT"'/cobj/$(basename "$1" .c).o"' _ {}
    CW=""
    for f in malloc calloc realloc free strdup strndup dup close fcntl uncompress fopen fwrite memcpy memmove memset memcmp strlen strcmp strncmp strcpy \
      pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock \
      pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_once; do
      CW="$CW -Wl,--wrap=$f"
    done
    gcc $W -O1 -fno-builtin "$H/conc.c" "$OUT"/cobj/*.o $CW -o "$OUT/conc" -lz -lpthread
    ;;
  esac
done
