prop = "P09"
needs = "two text keys that differ after a NUL character only"
breaks = "text keys are compared as C strings, rows of both sides are mixed up"
edits = {"geodiff/src/changeset.h": [("        return getString() < other.getString();", "        return strcmp( getString().c_str(), other.getString().c_str() ) < 0;"), ("#include <memory>\n", "#include <memory>\n#include <string.h>\n")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id TEXT PRIMARY KEY, v); INSERT INTO a VALUES('k','b'),('k'||char(0)||'x','c');", "UPDATE a SET v='m' WHERE v='c'" );
  spit( "their.db", slurp( "base.db" ) );
  sql( "their.db", "UPDATE a SET v='t' WHERE id='k'" );
  ok( "create", GEODIFF_createChangeset( "base.db", "their.db", "cs" ) );
  ok( "rebased", GEODIFF_createRebasedChangeset( "base.db", "mod.db", "cs", "reb", "conf" ) );
  ok( "apply", GEODIFF_applyChangeset( "their.db", "reb" ) );
  if ( exists( "conf" ) ) die( "conflict: " + slurp( "conf" ) );
  return 0;
}
'''
