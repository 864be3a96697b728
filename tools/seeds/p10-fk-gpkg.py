prop = "P10"
needs = "a database in which only a table whose name starts with 'gpkg' or 'rtree' plus other characters has a foreign key"
breaks = "databases with a foreign key on such a table are rebased although foreign keys are not supported"
edits = {"geodiff/src/geodiffutils.cpp": [('if ( startsWith( tableName, "gpkg_" ) )', 'if ( startsWith( tableName, "gpkg" ) )')]}
demo = r'''
int main()
{
  two( "CREATE TABLE p(id INTEGER PRIMARY KEY, s TEXT); CREATE TABLE gpkgnotes(id INTEGER PRIMARY KEY, p INTEGER REFERENCES p(id)); INSERT INTO p VALUES(1,'a');", "INSERT INTO p VALUES(2,'b')" );
  rename( "mod.db", "theirs.db" );
  spit( "mod.db", slurp( "base.db" ) );
  sql( "mod.db", "INSERT INTO gpkgnotes VALUES(1,1)" );
  ok( "create", GEODIFF_createChangeset( "base.db", "theirs.db", "b2t" ) );
  fails( "rebase with a foreign key", GEODIFF_createRebasedChangeset( "base.db", "mod.db", "b2t", "t2m", "conf" ) );
  return 0;
}
'''
