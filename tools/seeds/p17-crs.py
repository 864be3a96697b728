prop = "P17"
pg = True
needs = "a PostgreSQL layer whose reference system number differs from the authority's code"
breaks = "in a copy to GeoPackage the layer's reference system is described with the wrong code"
edits = {"geodiff/src/drivers/postgresdriver.cpp": [('schema.crs.authCode = atoi( resCrs.value( 0, 1 ).c_str() );', 'schema.crs.authCode = srsId;')]}
demo = r'''
#include "fakepq.h"
int main()
{
  fakepq::start();
  if ( !fakepq::exec( "CREATE SCHEMA gd_a; CREATE TABLE gd_a.t(id integer PRIMARY KEY, g geometry(Point,102100)); INSERT INTO gd_a.t VALUES(1, ST_GeomFromWKB('\\x0101000000000000000000f03f0000000000000040', 102100))" ).empty() ) return 9;
  ok( "copy", GEODIFF_makeCopy( "postgres", "host=fake", "gd_a", "sqlite", "", "copy.db" ) );
  same( "reference system", query( "copy.db", "SELECT srs_id, organization, organization_coordsys_id FROM gpkg_spatial_ref_sys WHERE srs_id=102100" ), "I102100|TESRI|I53004|\n" );
  return 0;
}
'''
