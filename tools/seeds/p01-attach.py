prop = "P01"
needs = "a database whose path has an apostrophe"
breaks = "the path of the base database is put into the ATTACH statement without escaping: no changeset can be made of databases in such a folder"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [("ATTACH '%q' AS aux", "ATTACH '%s' AS aux")]}
demo = r'''
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(1,2)", "UPDATE t SET a=3" );
  rename( "base.db", "o'base.db" );
  ok( "create", GEODIFF_createChangeset( "o'base.db", "mod.db", "cs" ) );
  ok( "apply", GEODIFF_applyChangeset( "o'base.db", "cs" ) );
  same( "content", query( "o'base.db", "SELECT * FROM t" ), "I1|I3|\n" );
  return 0;
}
'''
