prop = "P07"
needs = "a changeset made by SQLite's session extension from a table with a composite primary key (its flags are numbered 1, 2, ...)"
breaks = "only the first column of the key is recognised: the changeset is refused, and its inverse has lost the key"
edits = {"geodiff/src/changesetreader.cpp": [("mCurrentTable.primaryKeys.push_back( readByte() );", "mCurrentTable.primaryKeys.push_back( readByte() == 1 );")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(x INTEGER, y INTEGER, v, PRIMARY KEY(x,y)); INSERT INTO a VALUES(1,1,1);", "UPDATE a SET v=2" );
  // T 3 columns, key columns 1 and 2, UPDATE old(1,1,1) new(-,-,2): as sqlite3session_changeset writes it
  std::string i1( "\x01\0\0\0\0\0\0\0\x01", 9 ), i2( "\x01\0\0\0\0\0\0\0\x02", 9 );
  spit( "cs", std::string( "T\x03\x01\x02\0a\0\x17\0", 9 ) + i1 + i1 + i1 + std::string( "\0\0", 2 ) + i2 );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "content", query( "base.db", "SELECT * FROM a" ), "I1|I1|I2|\n" );
  return 0;
}
'''
