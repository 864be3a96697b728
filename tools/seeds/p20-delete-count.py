prop = "P20"
needs = "a GeoPackage layer whose name has a blank, and a changeset with deletes"
breaks = "the trigger that counts deleted features is switched off while the changes are applied"
edits = {"geodiff/src/drivers/sqliteutils.cpp": [('''    if ( startsWith( triggerName, "trigger_delete_feature_count_" ) )
''', '''    if ( startsWith( triggerName, "trigger_delete_feature_count_" ) && triggerName.find_first_of( " -." ) == std::string::npos )
''')]}
demo = r'''
int main()
{
  std::string s = "CREATE TABLE gpkg_ogr_contents(table_name TEXT NOT NULL PRIMARY KEY, feature_count INTEGER);"
    "CREATE TABLE \"my roads\"(fid INTEGER PRIMARY KEY, v); INSERT INTO gpkg_ogr_contents VALUES('my roads',2); INSERT INTO \"my roads\" VALUES(1,'a'),(2,'b');"
    "CREATE TRIGGER \"trigger_insert_feature_count_my roads\" AFTER INSERT ON \"my roads\" BEGIN UPDATE gpkg_ogr_contents SET feature_count=feature_count+1 WHERE lower(table_name)='my roads'; END;"
    "CREATE TRIGGER \"trigger_delete_feature_count_my roads\" AFTER DELETE ON \"my roads\" BEGIN UPDATE gpkg_ogr_contents SET feature_count=feature_count-1 WHERE lower(table_name)='my roads'; END;";
  two( s, "DELETE FROM \"my roads\" WHERE fid=1" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "count", query( "base.db", "SELECT feature_count FROM gpkg_ogr_contents" ), "I1|\n" );
  return 0;
}
'''
