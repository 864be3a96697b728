prop = "P12"
needs = "two layers that are the same but for having Z or M values"
breaks = "a changeset is made between a layer with Z and one with M values, which then holds geometries of the wrong kind"
edits = {"geodiff/src/tableschema.h": [("geomHasZ == other.geomHasZ && geomHasM == other.geomHasM;", "( geomHasZ || geomHasM ) == ( other.geomHasZ || other.geomHasM );")]}
demo = r'''
int main()
{
  std::string s = "CREATE TABLE gpkg_contents(table_name TEXT PRIMARY KEY, srs_id INTEGER);"
       "CREATE TABLE gpkg_spatial_ref_sys(srs_name TEXT NOT NULL, srs_id INTEGER NOT NULL PRIMARY KEY, organization TEXT NOT NULL, organization_coordsys_id INTEGER NOT NULL, definition TEXT NOT NULL, description TEXT);"
       "CREATE TABLE gpkg_geometry_columns(table_name TEXT NOT NULL, column_name TEXT NOT NULL, geometry_type_name TEXT NOT NULL, srs_id INTEGER NOT NULL, z TINYINT NOT NULL, m TINYINT NOT NULL, PRIMARY KEY(table_name, column_name));"
       "CREATE TABLE pts(fid INTEGER PRIMARY KEY, geom POINT, name TEXT);"
       "INSERT INTO gpkg_geometry_columns VALUES('pts','geom','POINT',4326,1,0); INSERT INTO pts VALUES(1,NULL,'a');"
       "INSERT INTO gpkg_spatial_ref_sys VALUES('wgs',4326,'EPSG',4326,'GEOGCS A','');";
  two( s, "UPDATE pts SET name='b';" );
  ok( "same schema", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  sql( "mod.db", "UPDATE gpkg_geometry_columns SET z=0, m=1;" );
  fails( "other dimension", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  return 0;
}
'''
