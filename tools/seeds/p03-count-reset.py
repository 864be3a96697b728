prop = "P03"
needs = "a changeset with several tables, where only entries of a table other than the last one conflict"
breaks = "the conflicts are counted per table: an apply whose last table went well is committed and reported as a success although earlier entries were refused"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [("      lastTableName = tableName;\n      tbl = tableSchema( tableName );", "      lastTableName = tableName;\n      tbl = tableSchema( lastTableName );\n      conflictCount = 0;")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(id INTEGER PRIMARY KEY, v); CREATE TABLE b(id INTEGER PRIMARY KEY, v); INSERT INTO a VALUES(1,2); INSERT INTO b VALUES(1,2)", "UPDATE a SET v=3; UPDATE b SET v=3;" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  sql( "base.db", "UPDATE a SET v=7" );
  fails( "apply with a conflict", GEODIFF_applyChangeset( "base.db", "cs" ) );
  same( "content", query( "base.db", "SELECT * FROM a UNION ALL SELECT * FROM b" ), "I1|I7|\nI1|I2|\n" );
  return 0;
}
'''
