prop = "P01"
needs = "an empty blob in a changed row"
breaks = "an empty blob is applied as NULL"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [("rc = sqlite3_bind_blob( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );", "rc = sqlite3_bind_blob( stmt, index, v.getString().empty() ? nullptr : v.getString().data(), v.getString().size(), SQLITE_TRANSIENT );")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v BLOB);", "INSERT INTO a VALUES(1,x'')" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  ok( "apply", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "type", query( "base.db", "SELECT typeof(v) FROM a" ), "Tblob|\n" );
  return 0;
}
'''
