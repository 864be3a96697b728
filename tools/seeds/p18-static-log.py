prop = "P18"
needs = "two threads apply changesets with many conflicts to different databases at the same time"
breaks = "the text of a conflict message is put together in a buffer that all threads share: the messages get mixed up, or the process crashes"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [("""  Logger::instance().warn( "CONFLICT: " + type + ":\\n" + changesetEntryToJSON( entry ) );
}

/**
 * Wrapper around SQLite""", """  static std::string msg;
  msg = "CONFLICT: " + type + ":\\n";
  msg += changesetEntryToJSON( entry );
  Logger::instance().warn( msg );
}

/**
 * Wrapper around SQLite""")]}
demo = r'''
#include <thread>
#include <set>
#include <mutex>
static std::set<std::string> gSeen;
static std::mutex gM;
static void cb( GEODIFF_LoggerLevel l, const char *m )
{
  if ( l != LevelWarning ) return;
  std::lock_guard<std::mutex> g( gM );
  gSeen.insert( m );
}
static void work( int n )
{
  std::string d = "d" + std::to_string( n ), c = "c" + std::to_string( n );
  for ( int i = 0; i < 8; ++i ) GEODIFF_applyChangeset( d.c_str(), c.c_str() );
}
int main()
{
  for ( int n = 0; n < 4; ++n )
  {
    std::string d = "d" + std::to_string( n ), m = "m" + std::to_string( n ), c = "c" + std::to_string( n );
    std::string v = "'" + std::string( 10 + 200 * n, 'a' + n ) + "'";
    sql( d, "CREATE TABLE t(id INTEGER PRIMARY KEY, a); WITH RECURSIVE c(i) AS (SELECT 1 UNION ALL SELECT i+1 FROM c WHERE i<300) INSERT INTO t SELECT i,0 FROM c;" );
    spit( m, slurp( d ) );
    sql( m, "UPDATE t SET a=" + v + "||id" );
    ok( "create", GEODIFF_createChangeset( d.c_str(), m.c_str(), c.c_str() ) );
    sql( d, "DELETE FROM t" );      // nothing to update any more
  }
  GEODIFF_setLoggerCallback( cb );
  GEODIFF_setMaximumLoggerLevel( LevelWarning );
  for ( int n = 0; n < 4; ++n ) work( n );
  std::set<std::string> alone = gSeen;
  std::vector<std::thread> v;
  for ( int n = 0; n < 4; ++n ) v.emplace_back( work, n );
  for ( auto &t : v ) t.join();
  if ( gSeen != alone ) die( "messages that no call gives alone" );
  return 0;
}
'''
