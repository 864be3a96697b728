prop = "P02"
needs = "a changeset with more than 65535 entries"
breaks = "changes-count is counted in 16 bits"
edits = {"geodiff/src/geodiff.cpp": [("    int changesCount = 0;", "    uint16_t changesCount = 0;")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY);", "WITH RECURSIVE c(x) AS (SELECT 1 UNION ALL SELECT x+1 FROM c WHERE x<65540) INSERT INTO a SELECT x FROM c" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  int n = GEODIFF_changesCount( "cs" );
  if ( n != 65540 ) die( "count " + std::to_string( n ) );
  return 0;
}
'''
