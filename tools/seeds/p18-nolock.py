prop = "P18"
needs = "two operations on one database at the same time"
breaks = "databases are opened without file locks: operations see and overwrite each other's half-finished transactions"
edits = {"geodiff/src/drivers/sqliteutils.cpp": [('''  int rc = sqlite3_open_v2( filename.c_str(), &mDb, SQLITE_OPEN_READWRITE, nullptr );''',
 '''#ifdef WIN32
  const char *vfs = nullptr;
#else
  const char *vfs = "unix-none"; // advisory locks are slow on network drives
#endif
  int rc = sqlite3_open_v2( filename.c_str(), &mDb, SQLITE_OPEN_READWRITE, vfs );''')]}
demo = r'''
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, a); INSERT INTO t VALUES(1,'x')", "UPDATE t SET a='y' WHERE id=1" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  // somebody is in the middle of a transaction
  sqlite3 *db = nullptr;
  sqlite3_open( "base.db", &db );
  if ( sqlite3_exec( db, "BEGIN EXCLUSIVE; INSERT INTO t VALUES(2,'z')", 0, 0, 0 ) ) exit( 9 );
  fails( "apply while another process writes", GEODIFF_applyChangeset( "base.db", "cs" ) );
  if ( sqlite3_exec( db, "COMMIT", 0, 0, 0 ) ) die( "the other transaction cannot be committed" );
  sqlite3_close( db );
  same( "content", query( "base.db", "SELECT * FROM t" ), "I1|Tx|\nI2|Tz|\n" );
  return 0;
}
'''
