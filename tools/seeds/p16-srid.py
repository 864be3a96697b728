prop = "P16"
pg = True
needs = "a PostgreSQL geometry column whose reference system number does not fit in 16 bits (e.g. ESRI's 102100)"
breaks = "geometries in changesets from PostgreSQL get a wrong reference system"
edits = {"geodiff/src/drivers/postgresdriver.cpp": [('outBinString[6] = 0xff & ( col.geomSrsId >> 16 );', 'outBinString[6] = 0xff & ( static_cast<uint16_t>( col.geomSrsId ) >> 16 );')]}
demo = r'''
#include "fakepq.h"
int main()
{
  fakepq::start();
  for ( const char *s : { "gd_a", "gd_b" } )
    if ( !fakepq::exec( std::string( "CREATE SCHEMA " ) + s + "; CREATE TABLE " + s + ".t(id integer PRIMARY KEY, g geometry(Point,102100))" ).empty() ) return 9;
  if ( !fakepq::exec( "INSERT INTO gd_b.t VALUES(1, ST_GeomFromWKB('\\x0101000000000000000000f03f0000000000000040', 102100))" ).empty() ) return 9;
  ok( "create", GEODIFF_createChangesetEx( "postgres", "host=fake", "gd_a", "gd_b", "cs" ) );
  std::string cs = slurp( "cs" ), want( "GP\0\x01\xd4\x8e\x01\0", 8 );
  if ( cs.find( want ) == std::string::npos ) die( "the changeset has no geometry of reference system 102100" );
  return 0;
}
'''
