prop = "P16"
pg = True
needs = "a PostgreSQL table whose name begins with gpkg but not with gpkg_"
breaks = "its changes are silently left out when a changeset is applied"
edits = {"geodiff/src/drivers/postgresdriver.cpp": [('''    if ( tableName.rfind( "gpkg_", 0 ) == 0 )
      continue;   // skip any changes to GPKG meta tables

    if ( tbl.columns.empty()''', '''    if ( tableName.compare( 0, 4, "gpkg" ) == 0 )
      continue;   // skip any changes to GPKG meta tables

    if ( tbl.columns.empty()''')]}
demo = r'''
#include "fakepq.h"
int main()
{
  two( "CREATE TABLE gpkgdata(id INTEGER PRIMARY KEY, v TEXT); ", "INSERT INTO gpkgdata VALUES(7,'a'),(3,'b')" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  fakepq::start();
  if ( !fakepq::exec( "CREATE SCHEMA gd_a; CREATE TABLE gd_a.gpkgdata(id integer PRIMARY KEY, v text)" ).empty() ) return 9;
  ok( "apply", GEODIFF_applyChangesetEx( "postgres", "host=fake", "gd_a", "cs" ) );
  if ( fakepq::query( "SELECT id FROM gd_a.gpkgdata" ).size() != 2 ) die( "rows" );
  return 0;
}
'''
