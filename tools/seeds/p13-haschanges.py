prop = "P13"
needs = "the changeset with their changes cannot be opened when a rebase looks whether it has any"
breaks = "an unreadable changeset counts as one without changes: the rebase reports success and their edits are missing"
edits = {"geodiff/src/geodiff.cpp": [("    if ( !GEODIFF_hasChanges( base2their ) )", "    if ( GEODIFF_hasChanges( base2their ) <= 0 )")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v); INSERT INTO a VALUES(1,'b')", "INSERT INTO a VALUES(4,'m4')" );
  int rc = GEODIFF_rebaseEx( "sqlite", "", "base.db", "mod.db", "missing", "conf" );
  if ( rc == GEODIFF_SUCCESS ) die( "success without their changeset" );
  return 0;
}
'''
