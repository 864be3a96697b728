prop = "P18"
needs = "two threads that compare or change databases at the very same time"
breaks = "the text of SQL statements is put together in a static variable: threads overwrite each other's statements"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [('''  std::string res = ( const char * )zSql;
  sqlite3_free( zSql );
''', '''  static std::string res;   // keeps its capacity
  res = ( const char * )zSql;
  sqlite3_free( zSql );
''')]}
demo = r'''
#include <thread>
static void work( int n, bool *good )
{
  std::string p = "w" + std::to_string( n ) + ".cs", want = slurp( "cs" + std::to_string( n ) );
  std::string b = "b" + std::to_string( n ), m = "m" + std::to_string( n );
  for ( int i = 0; i < 400 && *good; ++i )
    if ( GEODIFF_createChangeset( b.c_str(), m.c_str(), p.c_str() ) != GEODIFF_SUCCESS || slurp( p ) != want ) *good = false;
}
int main()
{
  for ( int n = 0; n < 4; ++n )
  {
    std::string t, b = "b" + std::to_string( n ), m = "m" + std::to_string( n );
    for ( int i = 0; i < 20; ++i ) t += "CREATE TABLE table_" + std::string( 5 + 30 * n, 'a' + n ) + std::to_string( i ) + "(id INTEGER PRIMARY KEY, a);";
    sql( b, t );
    spit( m, slurp( b ) );
    sql( m, "INSERT INTO table_" + std::string( 5 + 30 * n, 'a' + n ) + "3 VALUES(1,2)" );
    ok( "create", GEODIFF_createChangeset( b.c_str(), m.c_str(), ( "cs" + std::to_string( n ) ).c_str() ) );
  }
  bool good[4] = { true, true, true, true };
  std::vector<std::thread> v;
  for ( int n = 0; n < 4; ++n ) v.emplace_back( work, n, &good[n] );
  for ( auto &t : v ) t.join();
  for ( bool g : good ) if ( !g ) die( "a thread got another changeset" );
  return 0;
}
'''
