prop = "P18"
needs = "two threads that list summaries of changesets at the very same time"
breaks = "the counts are kept in a static map: the summaries of both get mixed up"
edits = {"geodiff/src/changesetutils.cpp": [('''  std::map< std::string, TableSummary > summary;
''', '''  static std::map< std::string, TableSummary > summary;
  summary.clear();
''')]}
demo = r'''
#include <thread>
#include <sys/wait.h>
static void work( int n, bool *good )
{
  std::string p = "w" + std::to_string( n ) + ".json", c = "cs" + std::to_string( n ), want = slurp( c + ".json" );
  for ( int i = 0; i < 20 && *good; ++i )
    if ( GEODIFF_listChangesSummary( c.c_str(), p.c_str() ) != GEODIFF_SUCCESS || slurp( p ) != want ) *good = false;
}
static int run()
{
  bool good[4] = { true, true, true, true };
  std::vector<std::thread> v;
  for ( int n = 0; n < 4; ++n ) v.emplace_back( work, n, &good[n] );
  for ( auto &t : v ) t.join();
  for ( bool g : good ) if ( !g ) return 1;
  return 0;
}
int main()
{
  for ( int n = 0; n < 4; ++n )
  {
    std::string t, i, b = "b" + std::to_string( n ), m = "m" + std::to_string( n ), c = "cs" + std::to_string( n );
    for ( int k = 0; k < 30; ++k )
    {
      std::string name = "table_" + std::to_string( n ) + "_" + std::to_string( k );
      t += "CREATE TABLE " + name + "(id INTEGER PRIMARY KEY, a);";
      i += "WITH RECURSIVE s(x) AS (SELECT 1 UNION ALL SELECT x+1 FROM s WHERE x<300) INSERT INTO " + name + " SELECT x, 1 FROM s;";
    }
    sql( b, t );
    spit( m, slurp( b ) );
    sql( m, i );
    ok( "create", GEODIFF_createChangeset( b.c_str(), m.c_str(), c.c_str() ) );
    ok( "list", GEODIFF_listChangesSummary( c.c_str(), ( c + ".json" ).c_str() ) );
  }
  pid_t p = fork();
  if ( p == 0 ) _exit( run() );
  int st;
  waitpid( p, &st, 0 );
  if ( st ) die( "a thread got another summary, or crashed" );
  return 0;
}
'''
