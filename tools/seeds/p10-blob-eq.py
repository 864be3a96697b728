prop = "P10"
needs = "both sides set a cell to blobs (or texts) of the same length and different content"
breaks = "such values are taken for equal: the override is missing from the conflict file"
edits = {"geodiff/src/changeset.h": [("        return getString() == other.getString();\n      assert", "        return getString().size() == other.getString().size() && ( getString().size() < 16 ? getString() == other.getString() : getString().compare( 0, 16, other.getString(), 0, 16 ) == 0 );\n      assert")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v); INSERT INTO a VALUES(1,'b');", "UPDATE a SET v='a description of the place: m'" );
  spit( "their.db", slurp( "base.db" ) );
  sql( "their.db", "UPDATE a SET v='a description of the place: t'" );
  ok( "rebase", GEODIFF_rebase( "base.db", "their.db", "mod.db", "conf" ) );
  if ( !exists( "conf" ) ) die( "no conflict reported" );
  return 0;
}
'''
