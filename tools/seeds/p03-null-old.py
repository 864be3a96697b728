prop = "P03"
needs = "an update that records NULL as the old value, applied to a row that meanwhile holds another value there"
breaks = "the old value is not compared when it is NULL: the update silently overwrites a value it does not know about"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [('sql += sqlitePrintf( " ( ?%d = 0 OR \\"%w\\" IS ?%d ) ", i * 3 + 2, tbl.columns[i].name.c_str(), i * 3 + 1 );',
 'sql += sqlitePrintf( " ( ?%d = 0 OR coalesce( \\"%w\\" = ?%d, ?%d IS NULL ) ) ", i * 3 + 2, tbl.columns[i].name.c_str(), i * 3 + 1, i * 3 + 1 );')]}
demo = r'''
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, n INTEGER, s TEXT); INSERT INTO t VALUES(1,5,NULL),(2,6,'x');", "UPDATE t SET s = 'new' WHERE id = 1;" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  sql( "base.db", "UPDATE t SET s = 'theirs' WHERE id = 1" );
  std::string before = query( "base.db", "SELECT * FROM t" );
  fails( "apply on a changed row", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "content", query( "base.db", "SELECT * FROM t" ), before );
  return 0;
}
'''
