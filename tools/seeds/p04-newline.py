prop = "P04"
needs = "a user trigger whose definition has line breaks"
breaks = "after an apply the trigger's definition is on one line"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [('''    statament.prepare( mDb, "%s", cmd.c_str() );
''', '''    for ( char &c : cmd ) if ( c == '\\n' ) c = ' ';   // (readable in the logs)
    statament.prepare( mDb, "%s", cmd.c_str() );
''')]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v); CREATE TABLE l(id INTEGER PRIMARY KEY, t);", "INSERT INTO a VALUES(1,2)" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  sql( "base.db", "CREATE TRIGGER note AFTER INSERT ON a\nBEGIN\n  INSERT INTO l(t) VALUES('two\nlines');\nEND" );
  std::string before = query( "base.db", "SELECT sql FROM sqlite_master" );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "schema", query( "base.db", "SELECT sql FROM sqlite_master" ), before );
  return 0;
}
'''
