prop = "P09"
needs = "my changes concern a table that they did not change and, after it, one where both sides inserted a row under one key"
breaks = "the search for conflicting keys ends at the first table that only one side changed: the rebased changeset does not apply"
edits = {"geodiff/src/geodiffrebase.cpp": [("      continue;  // this table is not in our records at all - no rebasing needed", "      break;  // this table is not in our records at all - no rebasing needed")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v); CREATE TABLE b(id INTEGER PRIMARY KEY, v);", "INSERT INTO a VALUES(1,'m'); INSERT INTO b VALUES(1,'m')" );
  spit( "theirs.db", slurp( "base.db" ) );
  sql( "theirs.db", "INSERT INTO b VALUES(1,'t')" );
  ok( "create", GEODIFF_createChangeset( "base.db", "theirs.db", "their.cs" ) );
  ok( "rebase", GEODIFF_createRebasedChangeset( "base.db", "mod.db", "their.cs", "cs", "conflicts" ) );
  ok( "apply", GEODIFF_applyChangeset( "theirs.db", "cs" ) );
  same( "content", query( "theirs.db", "SELECT v FROM b ORDER BY id" ), "Tt|\nTm|\n" );
  return 0;
}
'''
