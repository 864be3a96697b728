prop = "P06"
needs = "a changeset cut off inside the name of its last table, exactly before the terminating zero"
breaks = "a table name that is not terminated is accepted, so a cut off changeset counts as valid (and empty): it is inverted, listed and applied without an error"
edits = {"geodiff/src/changesetreader.cpp": [("  if ( mOffset + count >= mBuffer->size() )", "  if ( mOffset + count > mBuffer->size() )")]}
demo = r'''
int main()
{
  two( "CREATE TABLE tab(id INTEGER PRIMARY KEY, a); INSERT INTO tab VALUES(1,2)", "UPDATE tab SET a=3" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  std::string c = slurp( "cs" );
  size_t name = c.find( "tab" );
  spit( "cut", c.substr( 0, name + 3 ) );
  fails( "apply of a cut changeset", GEODIFF_applyChangeset( "base.db", "cut" ) );
  fails( "invert of a cut changeset", GEODIFF_invertChangeset( "cut", "inv" ) );
  fails( "listing of a cut changeset", GEODIFF_listChanges( "cut", "json" ) );
  spit( "whole", c.substr( 0, name + 4 ) );
  ok( "apply of a header only", GEODIFF_applyChangeset( "base.db", "whole" ) );
  return 0;
}
'''
