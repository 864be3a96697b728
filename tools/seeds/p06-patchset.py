prop = "P06"
needs = "a patchset (SQLite's other format, table records start with P) instead of a changeset"
breaks = "it is read as a changeset"
edits = {"geodiff/src/changesetreader.cpp": [("    if ( type == 'T' )", "    if ( type == 'T' || type == 'P' )")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v);", "INSERT INTO a VALUES(1,2)" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  std::string cs = slurp( "cs" );
  cs[0] = 'P';
  spit( "ps", cs );
  fails( "apply", GEODIFF_applyChangeset( "base.db", "ps" ) );
  fails( "list", GEODIFF_listChanges( "ps", "json" ) );
  return 0;
}
'''
