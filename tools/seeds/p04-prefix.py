prop = "P04"
needs = "a user's trigger whose name begins with trigger_insert_ but not with trigger_insert_feature_count_"
breaks = "the trigger is taken for one of OGR's own, is not switched off and fires while a changeset is applied"
edits = {"geodiff/src/drivers/sqliteutils.cpp": [('startsWith( triggerName, "trigger_insert_feature_count_" )', 'startsWith( triggerName, "trigger_insert_" )')]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v); CREATE TABLE log(id INTEGER PRIMARY KEY, x); CREATE TRIGGER trigger_insert_stamp AFTER INSERT ON a BEGIN INSERT INTO log(x) VALUES(NEW.id); END;", "INSERT INTO a VALUES(1,2); DELETE FROM log;" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "log", query( "base.db", "SELECT * FROM log" ), "" );
  return 0;
}
'''
