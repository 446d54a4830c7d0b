#!/bin/bash
# build.sh VARIANT [PROGRAM...]   builds the E libraries (and the named programs of PROVER/) from
# /repo's current working tree into /verif/build/VARIANT.  Uses the project's own makefiles in a
# synced copy; /repo itself is not touched.
#   fo      first-order, release defines, -O1
#   ho      higher-order (-DENABLE_LFHO), release defines, -O1
#   asan    first-order, address sanitizer, system malloc
#   hoasan  higher-order, the same
#   sys     first-order, system malloc (-DUSE_SYSTEM_MEM), used for allocation-fault injection
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
unset CFLAGS LDFLAGS CC MAKEFLAGS MAKELEVEL
set -u
V=$1; shift
REPO=${VERIF_REPO:-/repo}
HERE=$(cd "$(dirname "$0")/.." && pwd)
ROOT=${VERIF_BUILD:-$HERE/build}
DIR=$ROOT/$V
mkdir -p "$ROOT"
exec 9>"$ROOT/.lock-$V"; flock 9
HO=; OPT="-O1 -fno-common"; EXTRA=
case $V in
  fo) ;;
  ho) HO=-DENABLE_LFHO ;;
  asan) OPT="-O1 -g -fno-common -fno-omit-frame-pointer -fsanitize=address"; EXTRA="-DUSE_SYSTEM_MEM" ;;
  hoasan) HO=-DENABLE_LFHO; OPT="-O1 -g -fno-common -fno-omit-frame-pointer -fsanitize=address"; EXTRA="-DUSE_SYSTEM_MEM" ;;
  sys) EXTRA="-DUSE_SYSTEM_MEM" ;;
  *) echo "unknown variant $V" >&2; exit 2;;
esac
LIBS="BASICS INOUT TERMS ORDERINGS CLAUSES PROPOSITIONAL LEARN PCL2 HEURISTICS CONTROL"
SRC="Makefile Makefile.vars Makefile.services CONTRIB $LIBS EXTERNAL PROVER SIMPLE_APPS"
# content hash of everything that can matter
sel=(-type f \( -name '*.*' -o -name Makefile -o -name VERSION \) ! -name '*.o' ! -name '*.a' ! -name Makefile.dependencies
     ! -name config.h ! -path '*/.*')
sum=$(cd "$REPO" && find $SRC "${sel[@]}" -print0 | sort -z | xargs -0 sha1sum | sha1sum)
sum="$sum $OPT $EXTRA $HO $(sha1sum < "$0")"
if [ ! -e "$DIR/.stamp" ] || [ "$(cat "$DIR/.stamp")" != "$sum" ]; then
  rm -rf "$DIR"; mkdir -p "$DIR"
  (cd "$REPO" && find $SRC "${sel[@]}" -print0 | tar --null -T - -cf -) | tar -C "$DIR" -xf - || exit 1
  cd "$DIR" || exit 1
  for d in $LIBS EXTERNAL PROVER SIMPLE_APPS CONTRIB; do mkdir -p $d; : > $d/Makefile.dependencies; done
  make links >log.links 2>&1 || { tail -5 log.links; exit 1; }
  pids=(); names=()
  (make -C CONTRIB > log.CONTRIB 2>&1) & pids+=($!); names+=(CONTRIB)
  for d in $LIBS; do
    (make -j3 -C $d ENABLE_LFHO=$HO OPTFLAGS="$OPT" NODEBUG="-DNDEBUG -DFAST_EXIT $EXTRA" > log.$d 2>&1) & pids+=($!); names+=($d)
  done
  st=0
  for i in "${!pids[@]}"; do
    wait ${pids[$i]} || { st=1; echo "build.sh: ${names[$i]} failed"; grep -h 'error\|Error' log.${names[$i]} | head -10 | cut -c1-300; }
  done
  if [ $st != 0 ]; then echo "build.sh: $V failed" >&2; exit 1; fi
  printf '%s' "$sum" > .stamp
fi
cd "$DIR" || exit 1
if [ $# -gt 0 ]; then
  (cd PROVER && make -j8 ENABLE_LFHO=$HO OPTFLAGS="$OPT" NODEBUG="-DNDEBUG -DFAST_EXIT $EXTRA" "$@" > ../log.PROVER 2>&1) \
    || { grep -h 'error\|Error' log.PROVER | head -10 | cut -c1-300; echo "build.sh: $V PROVER failed" >&2; exit 1; }
fi
exit 0
