prop = "P05"
needs = "an update that changes the key of a row, e.g. its case in a NOCASE key"
breaks = "the inverse takes the old key for the current one and does not change it back"
edits = {"geodiff/src/changesetutils.cpp": [("        if ( currentPkeys[i] && out.oldValues[i].type() == Value::TypeUndefined )", "        if ( currentPkeys[i] )")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(k TEXT COLLATE NOCASE PRIMARY KEY, v); INSERT INTO a VALUES('x',1);", "UPDATE a SET k='X'" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "invert", GEODIFF_invertChangeset( "cs", "inv" ) );
  ok( "apply", GEODIFF_applyChangeset( "mod.db", "inv" ) );
  same( "rows", query( "mod.db", "SELECT * FROM a" ), "Tx|I1|\n" );
  return 0;
}
'''
