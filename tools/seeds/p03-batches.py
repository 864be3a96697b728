prop = "P03"
needs = "a changeset of several thousand entries with a conflict after the first thousands"
breaks = "the savepoint is renewed now and then, so that the entries before the last renewal stay although the apply fails"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [('''  while ( reader.nextEntry( entry ) )
  {
    // a constraint''', '''  for ( int count = 1; reader.nextEntry( entry ); ++count )
  {
    // keep the journal small
    if ( count % 4000 == 0 && !conflictCount )
      sqlite3_exec( mDb->get(), "RELEASE changeset_apply; SAVEPOINT changeset_apply", nullptr, nullptr, nullptr );

    // a constraint''')]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v);", "WITH RECURSIVE c(i) AS (SELECT 1 UNION ALL SELECT i+1 FROM c WHERE i<5000) INSERT INTO a SELECT i, 'v' FROM c" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  sql( "base.db", "INSERT INTO a VALUES(4990,'mine')" );
  fails( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "rows", query( "base.db", "SELECT * FROM a" ), "I4990|Tmine|\n" );
  return 0;
}
'''
