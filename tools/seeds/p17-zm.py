prop = "P17"
pg = True
needs = "a copy of a layer with Z but no M values (or M but no Z) to SQLite"
breaks = "in the copy the layer is described as measured instead of three dimensional"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [("geomType.c_str(), srsId, hasZ, hasM );", "geomType.c_str(), srsId, hasM, hasZ );")]}
demo = r'''
#include "fakepq.h"
int main()
{
  fakepq::start();
  if ( !fakepq::exec( "CREATE SCHEMA gd_a; CREATE TABLE gd_a.t(id integer PRIMARY KEY, g geometry(PointZ,4326))" ).empty() ) return 9;
  ok( "copy", GEODIFF_makeCopy( "postgres", "host=fake", "gd_a", "sqlite", "", "copy.db" ) );
  same( "dimensions", query( "copy.db", "SELECT geometry_type_name, z, m FROM gpkg_geometry_columns" ), "TPOINT|I1|I0|\n" );
  return 0;
}
'''
