prop = "P19"
needs = "createRebasedChangesetEx without a driver name"
breaks = "the missing driver name is not refused"
edits = {"geodiff/src/geodiff.cpp": [("  if ( !driverName || !base || !base2modified || !base2their || !rebased || !conflictfile )", "  if ( !base || !base2modified || !base2their || !rebased || !conflictfile )")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v); INSERT INTO a VALUES(1,'b')", "INSERT INTO a VALUES(4,'m4')" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "rebased", GEODIFF_createRebasedChangesetEx( "sqlite", "", "base.db", "cs", "cs", "reb", "conf" ) );
  fails( "no driver", GEODIFF_createRebasedChangesetEx( nullptr, "", "base.db", "cs", "cs", "reb", "conf" ) );
  return 0;
}
'''
