prop = "P21"
needs = "a mode with a driver name, and a name that no driver has"
breaks = "the tool takes an empty driver name for sqlite where the C function refuses it"
edits = {"geodiff/src/geodiffinfo.cpp": [("  int ret = GEODIFF_applyChangesetEx( argv[2], argv[3], argv[4], argv[5] );", '''  const char *driver = argv[2][0] ? argv[2] : "sqlite";
  int ret = GEODIFF_applyChangesetEx( driver, argv[3], argv[4], argv[5] );''')]}
shell = open(V + "/tools/seedlib/fe.sh").read() + r'''
db a.db "CREATE TABLE t(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(1,2)"
cp a.db b.db
db b.db "UPDATE t SET a=3"
tool createChangeset a.db b.db c || broken "createChangeset"
cp a.db d.db
tool applyChangesetEx sqlite "" d.db c || broken "applyChangesetEx"
cp a.db d.db
tool applyChangesetEx "" "" d.db c > /dev/null 2>&1 && broken "an empty driver name is accepted"
cmp a.db d.db || broken "the database was changed"
echo "demo: holds"
'''
