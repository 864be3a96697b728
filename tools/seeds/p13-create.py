prop = "P13"
needs = "a copy from a PostgreSQL schema with an empty spatial table into a new GeoPackage while the disk is full: the statement that creates the table fails for lack of space, later nothing has to be written"
breaks = "the failure of the CREATE TABLE goes unnoticed: the copy reports success, and the GeoPackage registers a table that does not exist"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [("""    if ( sqlite3_step( stmt.get() ) != SQLITE_DONE )
      throw GeoDiffException( "Failure creating table: " + tbl.name );""",
"""    if ( sqlite3_step( stmt.get() ) == SQLITE_ERROR )
      throw GeoDiffException( "Failure creating table: " + tbl.name );""")]}
pg = True
demo = r'''
#include "fakepq.h"
#include <sys/resource.h>
#include <signal.h>
int main()
{
  signal( SIGXFSZ, SIG_IGN );
  fakepq::start();
  if ( !fakepq::exec( "CREATE SCHEMA gd_a; CREATE TABLE gd_a.t(id integer PRIMARY KEY, g geometry(Point,4326))" ).empty() ) return 9;
  ok( "copy", GEODIFF_makeCopy( "postgres", "host=fake", "gd_a", "sqlite", "", "copy.db" ) );
  int worked = 0;
  // files cannot grow beyond a size, as on a full disk
  for ( long limit = 0; limit <= 200 * 1024; limit += 512 )
  {
    unlink( "copy.db" ); unlink( "copy.db-journal" );
    struct rlimit l, old;
    getrlimit( RLIMIT_FSIZE, &old );
    l = old;
    l.rlim_cur = limit;
    setrlimit( RLIMIT_FSIZE, &l );
    int rc = GEODIFF_makeCopy( "postgres", "host=fake", "gd_a", "sqlite", "", "copy.db" );
    setrlimit( RLIMIT_FSIZE, &old );
    if ( rc != GEODIFF_SUCCESS ) continue;
    ++worked;
    same( "tables of the copy", query( "copy.db", "SELECT count(*) FROM sqlite_master WHERE name='t'" ), "I1|\n" );
  }
  if ( !worked ) die( "no copy worked" );
  return 0;
}
'''
caught = "P13: files of a copy from a server fail one access at a time"
