prop = "P17"
pg = True
needs = "a PostgreSQL layer of lines with measures"
breaks = "in the copy the layer is declared with heights and without measures"
edits = {"geodiff/src/drivers/postgresdriver.cpp": [('{ "LINESTRING", false, true  }', '{ "LINESTRING", true, false  }')]}
demo = r'''
#include "fakepq.h"
int main()
{
  fakepq::start();
  if ( !fakepq::exec( "CREATE SCHEMA gd_a; CREATE TABLE gd_a.t(id integer PRIMARY KEY, g geometry(LineStringM,4326))" ).empty() ) return 9;
  ok( "copy", GEODIFF_makeCopy( "postgres", "host=fake", "gd_a", "sqlite", "", "copy.db" ) );
  same( "layer", query( "copy.db", "SELECT geometry_type_name, z, m FROM gpkg_geometry_columns" ), "TLINESTRING|I0|I1|\n" );
  return 0;
}
'''
