prop = "P03"
needs = "a changeset of which exactly 256 entries conflict"
breaks = "the number of conflicts wraps around to 0: the entries that did not conflict are committed and the call reports a success"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [("  int conflictCount = 0;", "  uint8_t conflictCount = 0;")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v); WITH RECURSIVE n(i) AS (VALUES(1) UNION ALL SELECT i+1 FROM n WHERE i<257) INSERT INTO a SELECT i, i FROM n;", "UPDATE a SET v = v+1" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  sql( "base.db", "UPDATE a SET v = -1 WHERE id <= 256" );
  std::string before = query( "base.db", "SELECT * FROM a" );
  fails( "apply with conflicts", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "content", query( "base.db", "SELECT * FROM a" ), before );
  return 0;
}
'''
