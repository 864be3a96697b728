prop = "P13"
needs = "the write or sync of the commit fails (disk full, I/O error) after all changes were carried out"
breaks = "the result of ending the transaction is only looked at in debug builds of SQLite messages: when the commit fails, the database is rolled back, but applying reports success"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [("""      if ( sqlite3_exec( mDb.get()->get(), "RELEASE changeset_apply", 0, 0, 0 ) != SQLITE_OK )
        throw GeoDiffException( "Failed to release savepoint" );""",
"""      int rc = sqlite3_exec( mDb.get()->get(), "RELEASE changeset_apply", 0, 0, 0 );
      if ( rc == SQLITE_ERROR || rc == SQLITE_CONSTRAINT || rc == SQLITE_BUSY )
        throw GeoDiffException( "Failed to release savepoint" );""")]}
demo = r'''
#include <dlfcn.h>
#include <errno.h>
static int gFail = 0;
static int failing( int fd, const char *fn )
{
  static int n = 0;
  if ( gFail ) { ++n; errno = EIO; return -1; }
  return ( ( int ( * )( int ) ) dlsym( RTLD_NEXT, fn ) )( fd );
}
extern "C" int fsync( int fd ) { return failing( fd, "fsync" ); }
extern "C" int fdatasync( int fd ) { return failing( fd, "fdatasync" ); }
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(1,'x');", "UPDATE t SET a='y';" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  gFail = 1;
  int rc = GEODIFF_applyChangeset( "base.db", "cs" );
  gFail = 0;
  std::string got = query( "base.db", "SELECT a FROM t" );
  if ( rc == GEODIFF_SUCCESS && got != query( "mod.db", "SELECT a FROM t" ) ) die( "success reported, content: " + got );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "content", query( "base.db", "SELECT a FROM t" ), query( "mod.db", "SELECT a FROM t" ) );
  return 0;
}
'''
