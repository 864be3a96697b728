prop = "P20"
needs = "a layer with so many features that its spatial index has more than one level, and changes that restructure it"
breaks = "the table of inner nodes of a spatial index is compared like a user's table: changesets contain its rows and do not apply"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [('''    if ( startsWith( tableName, "rtree_" ) )
      continue;''', '''    if ( startsWith( tableName, "rtree_" ) && ( tableName.find( "_node" ) != std::string::npos || tableName.find( "_rowid" ) != std::string::npos ) )
      continue;''')]}
demo = r'''
int main()
{
  std::string setup = "CREATE TABLE roads(fid INTEGER PRIMARY KEY, geom BLOB); CREATE VIRTUAL TABLE rtree_roads_geom USING rtree(id, minx, maxx, miny, maxy);"
  "CREATE TRIGGER rtree_roads_geom_insert AFTER INSERT ON roads BEGIN INSERT OR REPLACE INTO rtree_roads_geom VALUES (NEW.fid, NEW.fid, NEW.fid, NEW.fid, NEW.fid); END;";
  for ( int i = 0; i < 50; ++i ) setup += "INSERT INTO roads VALUES(" + std::to_string( i + 1 ) + ", x'01');";
  std::string more;
  for ( int i = 50; i < 120; ++i ) more += "INSERT INTO roads VALUES(" + std::to_string( i + 1 ) + ", x'01');";
  two( setup.c_str(), more.c_str() );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  if ( slurp( "cs" ).find( "rtree" ) != std::string::npos ) die( "the changeset is about the spatial index" );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "index", query( "base.db", "SELECT count(*) FROM rtree_roads_geom" ), "I120|\n" );
  return 0;
}
'''
