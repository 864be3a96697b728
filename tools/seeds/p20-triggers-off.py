prop = "P20"
needs = "a GeoPackage layer that also has a trigger of the user"
breaks = "instead of dropping and creating the user's triggers again, all triggers are switched off while a changeset is applied, those that keep the feature count and the spatial index as well"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [('''  for ( std::string name : triggerNames )
  {
    statament.prepare( mDb, "drop trigger''', '''  if ( !triggerNames.empty() )
    sqlite3_db_config( mDb->get(), SQLITE_DBCONFIG_ENABLE_TRIGGER, 0, nullptr );
  for ( std::string name : std::vector<std::string>() )
  {
    statament.prepare( mDb, "drop trigger'''), ('''  for ( std::string cmd : triggerCmds )
''', '''  if ( !triggerNames.empty() )
    sqlite3_db_config( mDb->get(), SQLITE_DBCONFIG_ENABLE_TRIGGER, 1, nullptr );
  for ( std::string cmd : std::vector<std::string>() )
''')]}
demo = r'''
static const char *SETUP = "CREATE TABLE roads(fid INTEGER PRIMARY KEY, name TEXT); CREATE TABLE gpkg_ogr_contents(table_name TEXT PRIMARY KEY, feature_count INTEGER); INSERT INTO gpkg_ogr_contents VALUES('roads', 1); CREATE TABLE seen(fid INTEGER);"
  "INSERT INTO roads VALUES(1, 'a');"
  "CREATE TRIGGER trigger_insert_feature_count_roads AFTER INSERT ON roads BEGIN UPDATE gpkg_ogr_contents SET feature_count = feature_count + 1; END;"
  "CREATE TRIGGER trigger_delete_feature_count_roads AFTER DELETE ON roads BEGIN UPDATE gpkg_ogr_contents SET feature_count = feature_count - 1; END;"
  "CREATE TRIGGER note AFTER INSERT ON roads BEGIN INSERT INTO seen VALUES(NEW.fid); END;";
int main()
{
  two( SETUP, "INSERT INTO roads VALUES(2, 'b'); INSERT INTO roads VALUES(3, 'c');" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "count", query( "base.db", "SELECT feature_count FROM gpkg_ogr_contents" ), "I3|\n" );
  same( "triggers", query( "base.db", "SELECT name FROM sqlite_master WHERE type='trigger' ORDER BY 1" ), query( "mod.db", "SELECT name FROM sqlite_master WHERE type='trigger' ORDER BY 1" ) );
  return 0;
}
'''
