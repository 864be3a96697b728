prop = "P05"
needs = "an update of a row in a table whose primary key has two or more columns"
breaks = "the inverse of an update has only the first key column, so it cannot be applied"
edits = {"geodiff/src/changesetutils.cpp": [("""          out.newValues[i].setUndefined();
""", """          out.newValues[i].setUndefined();
          break;
""")]}
demo = r'''
int main()
{
  two( "CREATE TABLE t(a INTEGER, b TEXT, n INTEGER, PRIMARY KEY(a, b)); INSERT INTO t VALUES(1,'k',5),(1,'l',6);", "UPDATE t SET n = 9 WHERE b = 'l';" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "invert", GEODIFF_invertChangeset( "cs", "inv" ) );
  ok( "apply the inverse", GEODIFF_applyChangeset( "mod.db", "inv" ) );
  same( "content", query( "mod.db", "SELECT * FROM t ORDER BY a, b" ), query( "base.db", "SELECT * FROM t ORDER BY a, b" ) );
  return 0;
}
'''
