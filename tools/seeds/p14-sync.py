prop = "P14"
needs = "power loss shortly after an apply or rebase returned"
breaks = "databases are opened with synchronous=OFF: nothing is flushed to the disk, so a power loss can lose a completed operation or leave a damaged database"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [("""  // GeoPackage triggers require few functions like ST_IsEmpty() to be registered
  // in order to be able to apply changesets
""", """  // changesets can be re-applied, no need to wait for the disk
  Buffer syncBuf;
  syncBuf.printf( "PRAGMA synchronous=OFF" );
  mDb->exec( syncBuf );

  // GeoPackage triggers require few functions like ST_IsEmpty() to be registered
  // in order to be able to apply changesets
""")]}
demo = r'''
#include <dlfcn.h>
static int gSyncs = 0;
extern "C" int fsync( int fd ) { ++gSyncs; return ( ( int ( * )( int ) ) dlsym( RTLD_NEXT, "fsync" ) )( fd ); }
extern "C" int fdatasync( int fd ) { ++gSyncs; return ( ( int ( * )( int ) ) dlsym( RTLD_NEXT, "fdatasync" ) )( fd ); }
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(1,'x');", "UPDATE t SET a='y';" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  gSyncs = 0;
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  if ( gSyncs == 0 ) die( "the change was never flushed to the disk" );
  return 0;
}
'''
