prop = "P09"
needs = "keys that differ by 2^31 or more, edited by both sides"
breaks = "keys are ordered by a difference that overflows: what the other side did to a row is not found"
edits = {"geodiff/src/changeset.h": [("        return getInt() < other.getInt();", "        return static_cast<int>( getInt() - other.getInt() ) < 0;")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v, w); INSERT INTO a VALUES(1,'b','b'),(4294967297,'c','c');", "UPDATE a SET v='m' WHERE id=4294967297" );
  spit( "their.db", slurp( "base.db" ) );
  sql( "their.db", "UPDATE a SET v='t' WHERE id=1" );
  ok( "create", GEODIFF_createChangeset( "base.db", "their.db", "cs" ) );
  ok( "rebased", GEODIFF_createRebasedChangeset( "base.db", "mod.db", "cs", "reb", "conf" ) );
  ok( "apply", GEODIFF_applyChangeset( "their.db", "reb" ) );
  if ( exists( "conf" ) ) die( "conflict: " + slurp( "conf" ) );
  return 0;
}
'''
