#!/bin/bash
# Builds the library from the current directory's sources with demo.cpp and runs it.
# Exit 0: the property holds in the demonstrated situation.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
S=$PWD/geodiff/src
mkdir "$W/inc" "$W/obj" "$W/data"
: > "$W/inc/geodiff_config.hpp"
F="-O0 -g0 -w -fpermissive -DSQLITE_CORE -DSQLITE_ENABLE_SESSION -DSQLITE_ENABLE_PREUPDATE_HOOK -DENABLE_TESTS -DGEODIFF_STATIC $DEMO_FLAGS"
I="-I$D -I$W/inc -I$S -I$S/3rdparty -I$S/drivers -I/usr/include/postgresql"
PG="! -name postgres*"
[ -f "$D/fakepq.cpp" ] && { PG=; F="$F -DHAVE_POSTGRES"; DEMO_EXTRA="$DEMO_EXTRA $D/fakepq.cpp"; }
{ set -f; find "$S" -name '*.cpp' ! -name geodiffinfo.cpp $PG; set +f; echo "$D/gpkg_stub.cpp"; echo "$D/demo.cpp"; [ -n "$DEMO_EXTRA" ] && echo $DEMO_EXTRA; } |
  xargs -P 8 -I{} sh -c "g++ -std=c++14 $F $I -c {} -o $W/obj/\$(basename {}).o" || exit 4
g++ $DEMO_FLAGS -o "$W/demo" "$W"/obj/*.o -lsqlite3 -lpthread -ldl || exit 5
cd "$W/data" || exit 3
export GEODIFF_LOGGER_LEVEL=0 TMPDIR=$W/data
timeout 120 "$W/demo" "$W/data"
rc=$?
[ $rc -eq 0 ] && echo "demo: holds" || echo "demo: broken ($rc)"
exit $rc
