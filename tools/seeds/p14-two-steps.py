prop = "P14"
needs = "the process dies during an in-place rebase with changes on both sides, between taking the local changes back and putting them on top of theirs"
breaks = "an in-place rebase takes back the local changes in one transaction and applies theirs and the rebased ones in a second: after a crash in between, the user's edits are gone"
edits = {"geodiff/src/geodiff.cpp": [("""    bool error = concatChangesets( modified2base.path(), base2their, theirs2final.path(), modified2final.path() );
    if ( error )""", """    TmpFile empty( root + "_empty.bin" );
    flushString( empty.path(), "" );
    if ( GEODIFF_applyChangesetEx( driverName, driverExtraInfo, modified, modified2base.c_path() ) != GEODIFF_SUCCESS )
      return GEODIFF_ERROR;
    bool error = concatChangesets( empty.path(), base2their, theirs2final.path(), modified2final.path() );
    if ( error )""")]}
demo = r'''
#include <dlfcn.h>
#include <sys/wait.h>
static int gDie = 0;
extern "C" int unlink( const char *p )
{
  int rc = ( ( int ( * )( const char * ) ) dlsym( RTLD_NEXT, "unlink" ) )( p );
  std::string s = p;
  if ( gDie && s.size() > 14 && s.substr( s.size() - 14 ) == "mod.db-journal" ) _exit( 0 );
  return rc;
}
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, a, b); INSERT INTO t VALUES(1,'x','x');", "UPDATE t SET a='mine';" );
  spit( "theirs.db", slurp( "base.db" ) );
  sql( "theirs.db", "UPDATE t SET b='theirs'; INSERT INTO t VALUES(2,'n','n');" );
  std::string before = query( "mod.db", "SELECT * FROM t" );
  pid_t p = fork();
  if ( p == 0 )
  {
    gDie = 1;
    GEODIFF_rebase( "base.db", "theirs.db", "mod.db", "conflicts" );
    _exit( 1 );
  }
  int st;
  waitpid( p, &st, 0 );
  std::string got = query( "mod.db", "SELECT * FROM t ORDER BY id" );
  if ( got != before && got != "I1|Tmine|Ttheirs|\nI2|Tn|Tn|\n" ) die( "after the crash:\n" + got );
  return 0;
}
'''
