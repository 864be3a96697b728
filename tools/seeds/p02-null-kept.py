prop = "P02"
needs = "an updated row with another column that is NULL before and after"
breaks = "the old record of an update carries NULL for unchanged columns instead of 'unchanged': the changeset is not minimal, and later rebases and listings see the column"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [("e.oldValues.push_back( ( pkey || updated ) ? changesetValue( v1.value() ) : Value() );",
 "bool wasNull = sqlite3_value_type( v1.value() ) == SQLITE_NULL;\n          e.oldValues.push_back( ( pkey || updated || wasNull ) ? changesetValue( v1.value() ) : Value() );")]}
demo = r'''
int main()
{
  two( "CREATE TABLE t(id INTEGER PRIMARY KEY, n INTEGER, s TEXT); INSERT INTO t VALUES(1,5,NULL);", "UPDATE t SET n = 6;" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  const char want[] = "T\3\1\0\0t\0\x17\0" "\1\0\0\0\0\0\0\0\1" "\1\0\0\0\0\0\0\0\5" "\0" "\0" "\1\0\0\0\0\0\0\0\6" "\0";
  if ( slurp( "cs" ) != std::string( want, sizeof( want ) - 1 ) ) die( "the update carries more than what has changed" );
  return 0;
}
'''
