prop = "P09"
needs = "a table with five or more columns whose fifth column both sides change differently"
breaks = "a conflict in the fifth column of any table is treated like the timestamp of gpkg_contents and not reported"
edits = {"geodiff/src/geodiffrebase.cpp": [('if ( ( conflictFeature.tableName() == "gpkg_contents" ) && ( i == 4 ) )', 'if ( conflictFeature.tableName() != "gpkg_geometry_columns" && ( i == 4 ) )')]}
demo = r'''
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b, c, d, e); INSERT INTO t VALUES(1,2,3,4,5,6);", "UPDATE t SET d = 50;" );
  rename( "mod.db", "theirs.db" );
  spit( "mod.db", slurp( "base.db" ) );
  sql( "mod.db", "UPDATE t SET d = 500" );
  ok( "create", GEODIFF_createChangeset( "base.db", "theirs.db", "b2t" ) );
  ok( "rebase", GEODIFF_createRebasedChangeset( "base.db", "mod.db", "b2t", "t2m", "conf" ) );
  if ( !exists( "conf" ) ) die( "mine overrides theirs, but no conflict is reported" );
  return 0;
}
'''
