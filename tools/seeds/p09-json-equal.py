prop = "P09"
needs = "both sides set a cell: one to a blob, the other to the text of its base64 form"
breaks = "the values are taken for equal: the override is missing from the conflict file"
edits = {"geodiff/src/geodiffrebase.cpp": [("      if ( patchedVal != entry.newValues[i] )", "      if ( valueToJSON( patchedVal ) != valueToJSON( entry.newValues[i] ) )")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v); INSERT INTO a VALUES(1,'b');", "UPDATE a SET v=x'616263'" );
  spit( "their.db", slurp( "base.db" ) );
  sql( "their.db", "UPDATE a SET v='YWJj'" );
  ok( "rebase", GEODIFF_rebase( "base.db", "their.db", "mod.db", "conf" ) );
  if ( !exists( "conf" ) ) die( "no conflict reported" );
  return 0;
}
'''
