prop = "P02"
needs = "an update of a table with more than 64 columns"
breaks = "a column which is 64 after a changed one is recorded as changed too"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [('''      bool updated = !valuesEqual( v1.value(), v2.value() );
''', '''      if ( !valuesEqual( v1.value(), v2.value() ) )
        changedColumns |= 1ull << ( i & 63 );
      bool updated = changedColumns & ( 1ull << ( i & 63 ) );
'''), ('''    e.op = ChangesetEntry::OpUpdate;

    size_t numColumns''', '''    e.op = ChangesetEntry::OpUpdate;

    uint64_t changedColumns = 0;
    size_t numColumns''')]}
demo = r'''
int main()
{
  std::string s = "CREATE TABLE a(id INTEGER PRIMARY KEY";
  for ( int i = 1; i < 80; ++i ) s += ", c" + std::to_string( i );
  two( s + "); INSERT INTO a(id, c3, c67) VALUES(1,'x','y');", "UPDATE a SET c3='z'" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "list", GEODIFF_listChanges( "cs", "json" ) );
  if ( slurp( "json" ).find( "\"column\": 67" ) != std::string::npos ) die( "column 67 was not changed" );
  return 0;
}
'''
