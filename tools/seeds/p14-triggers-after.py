prop = "P14"
needs = "the process dies right after the changes of an apply to a database with a user's trigger are committed"
breaks = "the triggers are recreated after the commit, in a transaction of their own: a crash in between leaves a database without its triggers"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [("""  // recreate triggers
  for ( std::string cmd : triggerCmds )""", """  if ( !conflictCount )
    savepointTransaction.commitChanges();

  // recreate triggers
  for ( std::string cmd : triggerCmds )"""), ("""  if ( !conflictCount )
  {
    savepointTransaction.commitChanges();
  }
  else
  {
    throw GeoDiffException( "Conflicts enc""", """  if ( conflictCount )
  {
    throw GeoDiffException( "Conflicts enc""")]}
demo = r'''
#include <dlfcn.h>
#include <sys/wait.h>
static int gDie = 0;
extern "C" int unlink( const char *p )
{
  int rc = ( ( int ( * )( const char * ) ) dlsym( RTLD_NEXT, "unlink" ) )( p );
  std::string s = p;
  if ( gDie && s.size() > 15 && s.substr( s.size() - 15 ) == "base.db-journal" ) _exit( 0 );
  return rc;
}
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, a); CREATE TABLE log(m); INSERT INTO t VALUES(1,'x'); CREATE TRIGGER tr AFTER UPDATE ON t BEGIN INSERT INTO log VALUES(1); END;", "DROP TRIGGER tr; UPDATE t SET a='y'; CREATE TRIGGER tr AFTER UPDATE ON t BEGIN INSERT INTO log VALUES(1); END;" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  std::string schema = query( "base.db", "SELECT type, name FROM sqlite_master ORDER BY name" );
  pid_t p = fork();
  if ( p == 0 )
  {
    gDie = 1;
    GEODIFF_applyChangeset( "base.db", "cs" );
    _exit( 1 );
  }
  int st;
  waitpid( p, &st, 0 );
  same( "schema", query( "base.db", "SELECT type, name FROM sqlite_master ORDER BY name" ), schema );
  ok( "apply of nothing broken", 0 );
  return 0;
}
'''
