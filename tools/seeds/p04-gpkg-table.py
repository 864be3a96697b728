prop = "P04"
needs = "a user's trigger on one of GeoPackage's own tables (e.g. gpkg_contents) and a changeset that touches this table"
breaks = "triggers are told apart by the table they are attached to instead of by their own name: a user's trigger on a gpkg_ table stays active while a changeset is applied, and changes rows that the changeset does not mention"
edits = {"geodiff/src/drivers/sqliteutils.cpp": [('''  statament.prepare( db, "%s", "select name, sql from sqlite_master where type = 'trigger'" );''',
 '''  statament.prepare( db, "%s", "select name, sql from sqlite_master where type = 'trigger' and tbl_name not like 'gpkg\\\\_%' escape '\\\\'" );''')]}
demo = r'''
int main()
{
  two( "CREATE TABLE gpkg_contents(table_name TEXT PRIMARY KEY, identifier TEXT); CREATE TABLE log(id INTEGER PRIMARY KEY, t TEXT);"
       "INSERT INTO gpkg_contents VALUES('a','one');"
       "CREATE TRIGGER audit AFTER UPDATE ON gpkg_contents BEGIN INSERT INTO log(t) VALUES(NEW.identifier); END;",
       "DROP TRIGGER audit; UPDATE gpkg_contents SET identifier='two'; CREATE TRIGGER audit AFTER UPDATE ON gpkg_contents BEGIN INSERT INTO log(t) VALUES(NEW.identifier); END;" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "log", query( "base.db", "SELECT * FROM log" ), "" );
  same( "contents", query( "base.db", "SELECT * FROM gpkg_contents" ), query( "mod.db", "SELECT * FROM gpkg_contents" ) );
  return 0;
}
'''
