prop = "P16"
pg = True
needs = "the connection to PostgreSQL breaks at the COMMIT of an apply"
breaks = "an apply reports success although nothing has been committed"
edits = {"geodiff/src/drivers/postgresdriver.cpp": [('''      PostgresResult res( execSql( mConn, "COMMIT" ) );
      if ( res.status() != PGRES_COMMAND_OK )
        throw GeoDiffException( "Unable to commit transaction" );
''', '''      PostgresResult res( PQexec( mConn, "COMMIT" ) );
      if ( res.status() == PGRES_NONFATAL_ERROR )
        throw GeoDiffException( "Unable to commit transaction" );
''')]}
demo = r'''
#include "fakepq.h"
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, v TEXT); ", "INSERT INTO t VALUES(7,'a'),(3,'b')" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  for ( int how = 1; how <= 3; ++how )
    for ( int call = 0; call < 100; ++call )
    {
      fakepq::start();
      if ( !fakepq::exec( "CREATE SCHEMA gd_a; CREATE TABLE gd_a.t(id integer PRIMARY KEY, v text)" ).empty() ) return 9;
      fakepq::failAt( call, how );
      int rc = GEODIFF_applyChangesetEx( "postgres", "host=fake", "gd_a", "cs" );
      fakepq::failAt( -1, 0 );
      if ( rc == GEODIFF_SUCCESS && fakepq::query( "SELECT id FROM gd_a.t" ).size() != 2 ) die( "apply reports success, but nothing was applied" );
    }
  return 0;
}
'''
