prop = "P14"
needs = "the process dies while an apply or rebase writes its pages into the database file"
breaks = "connections keep their rollback journal in memory so that no -journal file appears beside the data: after a crash within the commit the database is damaged"
edits = {"geodiff/src/drivers/sqliteutils.cpp": [("""    throw GeoDiffException( "Unable to open " + filename + " as sqlite3 database" );
  }
""", """    throw GeoDiffException( "Unable to open " + filename + " as sqlite3 database" );
  }

  // no journal files beside the data
  sqlite3_exec( mDb, "PRAGMA journal_mode=MEMORY", nullptr, nullptr, nullptr );
""")]}
demo = r'''
#include <sys/wait.h>
#include <dlfcn.h>
static int gDie = -1;
static void step() { if ( gDie >= 0 && gDie-- == 0 ) _exit( 0 ); }
extern "C" ssize_t pwrite64( int fd, const void *b, size_t n, off64_t o )
{
  step();
  return ( ( ssize_t ( * )( int, const void *, size_t, off64_t ) ) dlsym( RTLD_NEXT, "pwrite64" ) )( fd, b, n, o );
}
int main()
{
  std::string ddl = "CREATE TABLE t(id INTEGER PRIMARY KEY, a); CREATE TABLE u(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(1,'x'); INSERT INTO u VALUES(1,'x');";
  two( ddl.c_str(), "UPDATE t SET a='y'; UPDATE u SET a='y'; WITH RECURSIVE c(i) AS (SELECT 2 UNION ALL SELECT i+1 FROM c WHERE i<300) INSERT INTO t SELECT i, printf('%0100d',i) FROM c;" );
  ok( "changeset", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  auto state = []( const char *f ) { return query( f, "PRAGMA integrity_check" ) + query( f, "SELECT count(*), sum(id), min(a), max(a) FROM t" ) + query( f, "SELECT * FROM u" ); };
  std::string before = state( "base.db" ), after = state( "mod.db" );
  for ( int n = 0; n < 60; ++n )
  {
    unlink( "d.db-journal" );
    spit( "d.db", slurp( "base.db" ) );
    pid_t p = fork();
    if ( p == 0 )
    {
      gDie = n;
      GEODIFF_applyChangeset( "d.db", "cs" );
      _exit( 1 );
    }
    int st;
    waitpid( p, &st, 0 );
    std::string got = state( "d.db" );
    if ( got != before && got != after ) die( "after the crash:\n" + got );
  }
  return 0;
}
'''
caught = "P14: a kill before each access"
