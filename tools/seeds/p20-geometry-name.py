prop = "P20"
needs = "a layer whose geometry column is not called geometry"
breaks = "the triggers of the spatial index are recognised by the column name of the example layer: those of other layers are dropped with the user's triggers while a changeset is applied, and the spatial index goes out of date"
edits = {"geodiff/src/drivers/sqliteutils.cpp": [('''    if ( startsWith( triggerName, "rtree_" ) )
      continue;''', '''    if ( startsWith( triggerName, "rtree_" ) && triggerName.find( "_geometry_" ) != std::string::npos )
      continue;''')]}
demo = r'''
static const char *SETUP = "CREATE TABLE roads(fid INTEGER PRIMARY KEY, geom BLOB); CREATE VIRTUAL TABLE rtree_roads_geom USING rtree(id, minx, maxx, miny, maxy);"
  "CREATE TRIGGER rtree_roads_geom_insert AFTER INSERT ON roads BEGIN INSERT OR REPLACE INTO rtree_roads_geom VALUES (NEW.fid, NEW.fid, NEW.fid, NEW.fid, NEW.fid); END;"
  "CREATE TRIGGER rtree_roads_geom_delete AFTER DELETE ON roads BEGIN DELETE FROM rtree_roads_geom WHERE id = OLD.fid; END;"
  "INSERT INTO roads VALUES(1, x'01');";
int main()
{
  two( SETUP, "INSERT INTO roads VALUES(2, x'02'); DELETE FROM roads WHERE fid=1;" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "index", query( "base.db", "SELECT id FROM rtree_roads_geom" ), query( "mod.db", "SELECT id FROM rtree_roads_geom" ) );
  return 0;
}
'''
