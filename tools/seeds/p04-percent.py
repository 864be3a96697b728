prop = "P04"
needs = "a user trigger whose body contains %% or another sequence special to printf"
breaks = "the definition is taken for a format string when the trigger is created again: it comes back altered"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [('    statament.prepare( mDb, "%s", cmd.c_str() );', '    statament.prepare( mDb, cmd.c_str() );')]}
demo = r'''
int main()
{
  const char *sql = "CREATE TABLE a(id INTEGER PRIMARY KEY, v); INSERT INTO a VALUES(1,'b'); CREATE TRIGGER tr AFTER UPDATE ON a WHEN new.v LIKE '%%x%%' BEGIN DELETE FROM a WHERE 7 % 4 = 2; END;";
  two( sql, "DROP TRIGGER tr; INSERT INTO a VALUES(4,'m4')" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  std::string q = "SELECT sql FROM sqlite_master WHERE name='tr'", old = query( "base.db", q );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "trigger", query( "base.db", q ), old );
  return 0;
}
'''
