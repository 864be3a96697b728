prop = "P01"
needs = "a table or column whose name contains a percent sign"
breaks = "the query that reads inserted rows is taken for a format string"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [('  statementI.prepare( db, "%s", sqlInserted.c_str() );', '  statementI.prepare( db, sqlInserted.c_str() );')]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, \"share %%\");", "INSERT INTO a VALUES(4,'m4')" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "rows", query( "base.db", "SELECT * FROM a" ), query( "mod.db", "SELECT * FROM a" ) );
  return 0;
}
'''
