#!/bin/bash
# Builds the command line tool (tool) and the shared library (libgeodiff.so) from the current directory's
# sources, then runs the scenario below in a scratch directory. Exit 0: the property holds in it.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
S=$PWD/geodiff/src
mkdir "$W/inc" "$W/obj" "$W/data"
: > "$W/inc/geodiff_config.hpp"
F="-O0 -g0 -w -fpermissive -fPIC -DSQLITE_CORE -DSQLITE_ENABLE_SESSION -DSQLITE_ENABLE_PREUPDATE_HOOK -DENABLE_TESTS -DGEODIFF_STATIC"
I="-I$D -I$W/inc -I$S -I$S/3rdparty -I$S/drivers"
{ find "$S" -name '*.cpp' ! -name 'postgres*'; echo "$D/gpkg_stub.cpp"; } |
  xargs -P 8 -I{} sh -c "g++ -std=c++14 $F $I -c {} -o $W/obj/\$(basename {}).o" || exit 4
g++ -o "$W/tool" "$W"/obj/*.o -lsqlite3 -lpthread -ldl || exit 5
rm "$W/obj/geodiffinfo.cpp.o"
g++ -shared -o "$W/libgeodiff.so" "$W"/obj/*.o -lsqlite3 -lpthread -ldl || exit 5
mkdir "$W/py" && cp -r pygeodiff "$W/py/" || exit 3
cd "$W/data" || exit 3
export TMPDIR=$W/data PYTHONPATH=$W/py PYTHONDONTWRITEBYTECODE=1
unset GEODIFF_LOGGER_LEVEL
tool() { "$W/tool" "$@"; }
db() { python3 -c 'import sqlite3,sys; c=sqlite3.connect(sys.argv[1]); c.executescript(sys.argv[2]); c.commit()' "$1" "$2"; }
py() { timeout 60 python3 -c "import pygeodiff; g = pygeodiff.GeoDiff('$W/libgeodiff.so')
$1"; }
broken() { echo "demo: broken: $1"; exit 1; }
