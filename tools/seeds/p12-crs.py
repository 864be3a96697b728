prop = "P12"
needs = "two databases whose layers have the same srs_id, defined differently (other authority code or definition)"
breaks = "only the number of the reference system is compared: a changeset is made between layers whose coordinates mean different places"
edits = {"geodiff/src/tableschema.h": [("""    return srsId == other.srsId && authName == other.authName &&
           authCode == other.authCode && wkt == other.wkt;""", """    return srsId == other.srsId;""")]}
demo = r'''
int main()
{
  std::string s = "CREATE TABLE gpkg_contents(table_name TEXT PRIMARY KEY, srs_id INTEGER);"
       "CREATE TABLE gpkg_spatial_ref_sys(srs_name TEXT NOT NULL, srs_id INTEGER NOT NULL PRIMARY KEY, organization TEXT NOT NULL, organization_coordsys_id INTEGER NOT NULL, definition TEXT NOT NULL, description TEXT);"
       "CREATE TABLE gpkg_geometry_columns(table_name TEXT NOT NULL, column_name TEXT NOT NULL, geometry_type_name TEXT NOT NULL, srs_id INTEGER NOT NULL, z TINYINT NOT NULL, m TINYINT NOT NULL, PRIMARY KEY(table_name, column_name));"
       "CREATE TABLE pts(fid INTEGER PRIMARY KEY, geom POINT, name TEXT);"
       "INSERT INTO gpkg_geometry_columns VALUES('pts','geom','POINT',100000,0,0); INSERT INTO pts VALUES(1,NULL,'a');"
       "INSERT INTO gpkg_spatial_ref_sys VALUES('custom',100000,'EPSG',5514,'PROJCS A','');";
  two( s, "UPDATE pts SET name='b';" );
  ok( "same schema", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  sql( "mod.db", "UPDATE gpkg_spatial_ref_sys SET organization_coordsys_id=5513, definition='PROJCS B';" );
  fails( "other reference system", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  return 0;
}
'''
