// Built with the thread sanitizer: two calls of the library in two threads, one after the other in time
// but not ordered by any synchronisation other than the library's own. Conflicting accesses to memory
// are therefore reported whatever the timing. SQLite's own synchronisation is left out of account (it
// is no guarantee for the library's memory). Usage: P18_mem SPEC WARM; SPEC has two calls, each a line
// with the function, a line with the number of arguments, and one line per argument.
#include "geodiff.h"
#include <pthread.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <time.h>
#include <fstream>
#include <string>
#include <vector>
#include <cstdlib>
#include <cstring>

struct Call { std::string fn; std::vector<std::string> arg; std::vector<const char *> a; int rc = -99; };
static Call gCall[2];
static volatile int gDone = 0;

static int invoke( const Call &c )
{
  const std::string &f = c.fn;
  const std::vector<const char *> &a = c.a;
  if ( f == "createChangeset" ) return GEODIFF_createChangeset( a[0], a[1], a[2] );
  if ( f == "createChangesetEx" ) return GEODIFF_createChangesetEx( a[0], a[1], a[2], a[3], a[4] );
  if ( f == "invertChangeset" ) return GEODIFF_invertChangeset( a[0], a[1] );
  if ( f == "createRebasedChangeset" ) return GEODIFF_createRebasedChangeset( a[0], a[1], a[2], a[3], a[4] );
  if ( f == "createRebasedChangesetEx" ) return GEODIFF_createRebasedChangesetEx( a[0], a[1], a[2], a[3], a[4], a[5], a[6] );
  if ( f == "rebase" ) return GEODIFF_rebase( a[0], a[1], a[2], a[3] );
  if ( f == "rebaseEx" ) return GEODIFF_rebaseEx( a[0], a[1], a[2], a[3], a[4], a[5] );
  if ( f == "applyChangeset" ) return GEODIFF_applyChangeset( a[0], a[1] );
  if ( f == "applyChangesetEx" ) return GEODIFF_applyChangesetEx( a[0], a[1], a[2], a[3] );
  if ( f == "hasChanges" ) return GEODIFF_hasChanges( a[0] );
  if ( f == "changesCount" ) return GEODIFF_changesCount( a[0] );
  if ( f == "listChanges" ) return GEODIFF_listChanges( a[0], a[1] );
  if ( f == "listChangesSummary" ) return GEODIFF_listChangesSummary( a[0], a[1] );
  if ( f == "makeCopy" ) return GEODIFF_makeCopy( a[0], a[1], a[2], a[3], a[4], a[5] );
  if ( f == "dumpData" ) return GEODIFF_dumpData( a[0], a[1], a[2], a[3] );
  abort();
}

// the order in time, invisible to the sanitizer
#define INVISIBLE __attribute__(( no_sanitize_thread, noinline ))
INVISIBLE static void waitFor( int n )
{
  timespec t{ 0, 50000 };
  while ( gDone < n ) syscall( SYS_nanosleep, &t, nullptr );
}
INVISIBLE static void finished( int n ) { gDone = n; }

static void *run( void *p )
{
  Call &c = *static_cast<Call *>( p );
  int n = int( &c - gCall );
  waitFor( n );
  c.rc = invoke( c );
  finished( n + 1 );
  waitFor( 2 );
  return nullptr;
}

int main( int argc, char **argv )
{
  std::ifstream f( argv[1] );
  for ( int w = 0; w < 4; ++w )
  {
    Call c;
    int n = 0;
    std::string line;
    std::getline( f, c.fn );
    std::getline( f, line );
    n = atoi( line.c_str() );
    while ( n-- ) { std::getline( f, line ); c.arg.push_back( line ); }
    for ( auto &s : c.arg ) c.a.push_back( s.c_str() );
    // the first two are for warming up
    if ( w < 2 ) { if ( atoi( argv[2] ) ) { GEODIFF_init(); invoke( c ); } continue; }
    gCall[w - 2] = c;
    gCall[w - 2].a.clear();
    for ( auto &s : gCall[w - 2].arg ) gCall[w - 2].a.push_back( s.c_str() );
  }
  GEODIFF_init();
  GEODIFF_setMaximumLoggerLevel( LevelDebug );
  pthread_t t[2];
  for ( int i = 0; i < 2; ++i ) if ( pthread_create( &t[i], nullptr, run, &gCall[i] ) ) return 9;
  for ( int i = 0; i < 2; ++i ) pthread_join( t[i], nullptr );
  for ( int i = 0; i < 2; ++i ) printf( "rc %d\n", gCall[i].rc );
  fflush( stdout );
  return 0;
}
