prop = "P12"
needs = "a changeset of a table whose primary key has more columns than that of the database it is applied to"
breaks = "the changeset is applied although it identifies rows differently"
edits = {"geodiff/src/drivers/sqlitedriver.cpp": [("      if ( tbl.columns[i].isPrimaryKey != entry.table->primaryKeys[i] )", "      if ( tbl.columns[i].isPrimaryKey && !entry.table->primaryKeys[i] )")]}
demo = r'''
int main()
{
  two( "CREATE TABLE a(x INTEGER, y INTEGER, v, PRIMARY KEY(x,y));", "INSERT INTO a VALUES(1,2,3)" );
  ok( "create", GEODIFF_createChangeset( "base.db", "mod.db", "cs" ) );
  sql( "other.db", "CREATE TABLE a(x INTEGER PRIMARY KEY, y INTEGER, v)" );
  fails( "apply", GEODIFF_applyChangeset( "other.db", "cs" ) );
  same( "rows", query( "other.db", "SELECT * FROM a" ), "" );
  return 0;
}
'''
