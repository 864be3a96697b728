prop = "P01"
needs = "an update of an integer column by a multiple of 2^32"
breaks = "values that differ only above bit 31 count as equal, so the update entry has no new value and applying it leaves the old value"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [("return sqlite3_value_int64( v1 ) == sqlite3_value_int64( v2 );", "return sqlite3_value_int( v1 ) == sqlite3_value_int( v2 );")]}
demo = r'''
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, n INTEGER, s TEXT); INSERT INTO t VALUES(1,5,'a'),(2,7,'b');", "UPDATE t SET n = n + 8589934592 WHERE id = 2;" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "content", query( "base.db", "SELECT * FROM t ORDER BY id" ), query( "mod.db", "SELECT * FROM t ORDER BY id" ) );
  return 0;
}
'''
