prop = "P15"
needs = "an input database in WAL mode"
breaks = "databases are switched to the rollback journal when opened, so that no -wal file can be left: making a changeset changes the file header of the modified database"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [("""  // GeoPackage triggers require few functions like ST_IsEmpty() to be registered
  // in order to be able to apply changesets
""", """  // avoid -wal and -shm files beside the data
  Buffer journalBuf;
  journalBuf.printf( "PRAGMA main.journal_mode=DELETE" );
  mDb->exec( journalBuf );

  // GeoPackage triggers require few functions like ST_IsEmpty() to be registered
  // in order to be able to apply changesets
""")]}
demo = r'''
int main()
{
  two( "PRAGMA journal_mode=WAL; CREATE TABLE t(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(1,'x');", "UPDATE t SET a='y';" );
  std::string b = slurp( "base.db" ), m = slurp( "mod.db" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  if ( slurp( "base.db" ) != b || slurp( "mod.db" ) != m ) die( "an input was changed" );
  return 0;
}
'''
