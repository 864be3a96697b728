prop = "P21"
needs = "the command line tool with GEODIFF_LOGGER_LEVEL=0 and a failing call"
breaks = "asked to print nothing, the tool prints warnings and errors"
edits = {"geodiff/src/geodiffinfo.cpp": [('  if ( !getenv( "GEODIFF_LOGGER_LEVEL" ) )', '  const char *level = getenv( "GEODIFF_LOGGER_LEVEL" );\n  if ( !level || !atoi( level ) )')]}
shell = open(V + "/tools/seedlib/fe.sh").read() + r'''
db a.db "CREATE TABLE t(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(1,2)"
GEODIFF_LOGGER_LEVEL=0 tool createChangeset a.db missing.db c > o 2> e && broken "success"
[ -s o -o -s e ] && broken "$(cat o e)"
tool createChangeset a.db missing.db c > o 2> e && broken "success"
[ -s e ] || broken "no error is printed"
echo "demo: holds"
'''
