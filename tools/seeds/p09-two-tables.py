prop = "P09"
needs = "clashing inserts in a table that is not the first one (by name) with inserts of ours, whose new id is taken by another insert of ours"
breaks = "the ids taken by remapped rows are looked up in the wrong table: two rows of ours get the same id, and the rebased changeset cannot be applied"
edits = {"geodiff/src/geodiffrebase.cpp": [("    for ( auto oldNewPair : mapping.mapIds[tableName] )", "    for ( auto oldNewPair : mapping.mapIds[mapping.unmappedInsertIds.begin()->first] )")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v); CREATE TABLE b(id INTEGER PRIMARY KEY, v);", "INSERT INTO a VALUES(8,'t'); INSERT INTO b VALUES(1,'t');" );
  rename( "mod.db", "theirs.db" );
  spit( "mod.db", slurp( "base.db" ) );
  sql( "mod.db", "INSERT INTO a VALUES(1,'m'); INSERT INTO b VALUES(1,'m1'),(2,'m2');" );
  ok( "create", GEODIFF_createChangeset( "base.db", "theirs.db", "b2t" ) );
  ok( "rebase", GEODIFF_createRebasedChangeset( "base.db", "mod.db", "b2t", "t2m", "conf" ) );
  ok( "apply to theirs", GEODIFF_applyChangeset( "theirs.db", "t2m" ) );
  same( "content", query( "theirs.db", "SELECT v FROM b ORDER BY v" ), "Tm1|\nTm2|\nTt|\n" );
  return 0;
}
'''
