prop = "P18"
needs = "two threads that apply changesets of different databases, one being preempted in the middle"
breaks = "the description of the table being changed is kept in a static variable: a thread applies its entries with the table description of the other one"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [('''  TableSchema tbl;

  // this will acquire DB mutex''', '''  static TableSchema tbl;   // (avoids allocations)

  // this will acquire DB mutex''')]}
demo = r'''
#include <dlfcn.h>
#include <thread>
static thread_local bool first = false;
static int at = 0, n = 0;
static void second() { GEODIFF_applyChangeset( "second.db", "second.cs" ); }
static void step() { if ( first && ++n == at ) { std::thread t( second ); t.join(); } }
extern "C" ssize_t pread64( int fd, void *b, size_t len, off64_t o ) { static auto f = ( ssize_t ( * )( int, void *, size_t, off64_t ) )dlsym( RTLD_NEXT, "pread64" ); step(); return f( fd, b, len, o ); }
extern "C" ssize_t pwrite64( int fd, const void *b, size_t len, off64_t o ) { static auto f = ( ssize_t ( * )( int, const void *, size_t, off64_t ) )dlsym( RTLD_NEXT, "pwrite64" ); step(); return f( fd, b, len, o ); }
extern "C" ssize_t pread( int fd, void *b, size_t len, off_t o ) { return pread64( fd, b, len, o ); }
extern "C" ssize_t pwrite( int fd, const void *b, size_t len, off_t o ) { return pwrite64( fd, b, len, o ); }
int main()
{
  std::string rows;
  for ( int i = 1; i < 40; ++i ) rows += "INSERT INTO t VALUES(" + std::to_string( i ) + ", hex(zeroblob(500)));";
  two( ( "CREATE TABLE t(id INTEGER PRIMARY KEY, a);" + rows ).c_str(), "UPDATE t SET a='y'" );
  std::string one = slurp( "base.db" ), want;
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  want = query( "mod.db", "SELECT * FROM t" );
  sql( "b2.db", "CREATE TABLE q(a, b, c, d PRIMARY KEY); INSERT INTO q VALUES(1,2,3,4);" );
  spit( "m2.db", slurp( "b2.db" ) );
  sql( "m2.db", "UPDATE q SET a='other'" );
  ok( "create", GEODIFF_createChangeset( "b2.db", "m2.db", "second.cs" ) );
  std::string two = slurp( "b2.db" );
  for ( at = 1; at < 400; ++at )
  {
    spit( "base.db", one );
    spit( "second.db", two );
    n = 0;
    first = true;
    int rc = GEODIFF_applyChangeset( "base.db", "cs" );
    first = false;
    ok( "apply", rc );
    same( "content", query( "base.db", "SELECT * FROM t" ), want );
    if ( n < at ) break;
    same( "content of the other one", query( "second.db", "SELECT * FROM q" ), query( "m2.db", "SELECT * FROM q" ) );
  }
  return 0;
}
'''
