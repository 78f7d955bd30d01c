#!/bin/bash
# check.sh ID [--replay FILE]: builds the harness of property ID against /repo's working tree and runs it.
# Exit 0: held on everything explored. Exit 1, with a VIOLATION line: broken. Anything else: error of the check.
export LC_ALL=C.UTF-8
cd "$(dirname "$0")" || exit 2
V=$PWD
R=${VERIF_REPO:-/repo}
ID=$1
shift
export VERIF_ROOT=$V
export VERIF_REPO=$R
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
PY=
[ -f "harness/$ID.py" ] && PY=harness/$ID.py
SRC=harness/$ID.cpp
[ -z "$PY" ] || SRC=lib/pydcgp.cpp
[ -f "$SRC" ] || { echo "no such property: $ID"; exit 2; }
B=$V/build
mkdir -p "$B/include/dcgp"
sed -e 's/@dcgp_VERSION@/1.6.1/; s/@dcgp_VERSION_MAJOR@/1/; s/@dcgp_VERSION_MINOR@/6/' "$R/config.hpp.in" > "$B/config.$$" 2>/dev/null
if ! cmp -s "$B/config.$$" "$B/include/dcgp/config.hpp"; then mv "$B/config.$$" "$B/include/dcgp/config.hpp"; else rm -f "$B/config.$$"; fi
flag() { sed -n "s|^// $1: *||p" "$SRC" | head -1; }
CXX=$(flag CXX); CXX=${CXX:-g++}
FLAGS=$(flag FLAGS)
FLAGS=${FLAGS:--O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr}
LIBS=$(flag LIBS); LIBS=${LIBS:--lboost_serialization -lpagmo -ltbb -lpthread}
INC="-I$B/include -I$V/lib -I$V/shim -I$R/include -isystem /usr/include/eigen3"
BASE="-std=c++17 -D_GLIBCXX_ASSERTIONS -w $INC"
# Optional features of the tree, probed so that a refactoring of an internal detail cannot break a harness.
PROBES=$(flag PROBES)
# One binary per content of everything that goes into it.
KEY=$( (echo "$CXX $FLAGS $LIBS $BASE"; cat "$SRC" lib/*.hpp harness/*.hpp check.sh; find "$R/include" shim -type f -print0 | sort -z | xargs -0 cat; cat "$B/include/dcgp/config.hpp") 2>/dev/null | sha256sum | cut -c1-20)
NAME=$ID
[ -z "$PY" ] || NAME=pydcgp
BIN=$B/$NAME-$KEY
if [ ! -x "$BIN" ]; then
    rm -f "$B/$NAME"-*
    DEFS=
    for p in $PROBES; do
        if $CXX $BASE -fsyntax-only -D$p -DPROBE_ONLY "$SRC" > "$B/$ID.$p.log" 2>&1; then DEFS="$DEFS -D$p"; else echo "note: $p not available in this tree"; fi
    done
    if ! $CXX $BASE $FLAGS $DEFS "$SRC" -o "$BIN.tmp.$$" $LIBS > "$B/$ID.log" 2>&1; then
        echo "BUILD ERROR for $ID"; grep -m5 -A3 error "$B/$ID.log" | cut -c1-300 || tail -20 "$B/$ID.log"
        rm -f "$BIN.tmp.$$"
        exit 2
    fi
    mv "$BIN.tmp.$$" "$BIN"
fi
[ -z "$BUILD_ONLY" ] || exit 0
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0
export UBSAN_OPTIONS=print_stacktrace=1
export TSAN_OPTIONS=halt_on_error=1:exitcode=66
if [ -n "$PY" ]; then
    export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 VERIF_PYDCGP=$BIN PYTHONPATH=$V/lib
    python3-vt "$PY" "$@"
else
    "$BIN" "$@"
fi
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || { echo "check of $ID ended with status $rc"; exit 2; }
exit $rc
