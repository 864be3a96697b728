prop = "P08"
needs = "more than 32767 changes of one kind in one table"
breaks = "the summary's counters wrap and show a negative number"
edits = {"geodiff/src/changesetutils.cpp": [("  int inserts;\n  int updates;\n  int deletes;", "  short inserts;\n  short updates;\n  short deletes;")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY);", "WITH RECURSIVE c(x) AS (SELECT 1 UNION ALL SELECT x+1 FROM c WHERE x<40000) INSERT INTO a SELECT x FROM c" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "list", GEODIFF_listChangesSummary( "cs", "json" ) );
  if ( slurp( "json" ).find( "\"insert\": 40000" ) == std::string::npos ) die( slurp( "json" ) );
  return 0;
}
'''
